"""C25: the loop filters run as AV1's decoder runs them."""
import random
from sa.val import *
from sa.gate import *
from sa.prog import norm
from sa import ae as _ae
from sa.cterm import Opaque
from sa import cterm
from sa.tev import atoms
from checks.c18 import arr, last
from checks.c19 import fnamed
from checks.c21 import en, params, bo_of, bo_xy
from checks.c22 import bsz, deref_k
from checks import cdef
from checks.cdef import stepping

RULE = """Edge filters are interpreted from block records to pixels: which edges
are filtered, how wide and how strongly, and (one row symbolic, as closed terms)
every sample written, against AV1's edge loop filter process; the order of edges
of a plane against the dependencies of filtering all vertical edges first; CDEF's
blocks, strengths, directions and damping per 8x8 block; the order of filters of
a frame."""
ASSUME = ["sharpness is 0, level deltas are off and segmentation has no loop "
          "filter feature, as rav1e codes them", "superblocks are 64x64"]
SIZES = [(w, h) for w in (4, 8, 16, 32, 64) for h in (4, 8, 16, 32, 64)
         if max(w, h) <= 4 * min(w, h)]
NAMES = ["INTRA_FRAME", "LAST_FRAME", "LAST2_FRAME", "LAST3_FRAME",
         "GOLDEN_FRAME", "BWDREF_FRAME", "ALTREF2_FRAME", "ALTREF_FRAME",
         "NONE_FRAME"]


# ------------------------------------------------------ AV1's sample filter
def lf_samples(size, v, L, bd):
    """The samples across an edge after filtering; v has 2*n samples."""
    s = bd - 8
    h = len(v) // 2
    p = [v[h - 1 - i] for i in range(h)]
    q = [v[h + i] for i in range(h)]
    lim, bl, th = max(1, L) << s, (2 * (L + 2) + max(1, L)) << s, (L >> 4) << s
    d = abs
    n = {4: 1, 6: 2, 8: 3, 14: 3}[size]
    ok = all(d(p[i + 1] - p[i]) <= lim and d(q[i + 1] - q[i]) <= lim
             for i in range(n))
    if not ok or d(p[0] - q[0]) * 2 + d(p[1] - q[1]) // 2 > bl:
        return list(v)
    hev = d(p[1] - p[0]) > th or d(q[1] - q[0]) > th
    one = 1 << s
    flat = size > 4 and all(d(p[i] - p[0]) <= one and d(q[i] - q[0]) <= one
                            for i in range(1, n + 1))
    flat2 = size == 14 and all(d(p[i] - p[0]) <= one and
                               d(q[i] - q[0]) <= one for i in (4, 5, 6))
    out = list(v)
    if not flat:
        lo, hi = -(128 << s), (128 << s) - 1

        def c(x):
            return min(max(x, lo), hi)
        z = 128 << s
        p1, p0, q0, q1 = p[1] - z, p[0] - z, q[0] - z, q[1] - z
        f = c(p1 - q1) if hev else 0
        f = c(f + 3 * (q0 - p0))
        f1, f2 = c(f + 4) >> 3, c(f + 3) >> 3
        out[h], out[h - 1] = c(q0 - f1) + z, c(p0 + f2) + z
        if not hev:
            f = (f1 + 1) >> 1
            out[h + 1], out[h - 2] = c(q1 - f) + z, c(p1 + f) + z
        return out
    lg = 4 if flat2 else 3
    n = 6 if flat2 else 2 if size == 6 else 3
    n2 = 0 if lg == 3 and size != 6 else 1
    for i in range(-n, n):
        t = 0
        for j in range(-n, n + 1):
            k = min(max(i + j, -(n + 1)), n)
            t += v[h + k] * (2 if abs(j) <= n2 else 1)
        out[h + i] = (t + (1 << (lg - 1))) >> lg
    return out


class Rec:
    """What the decoder knows of a block."""

    def __init__(self, x, y, bs, tx, skip=0, ref=1, mode="NEWMV",
                 deltas=(0, 0, 0, 0)):
        self.x, self.y, self.bs, self.tx = x, y, bs, tx
        self.skip, self.ref, self.mode, self.deltas = skip, ref, mode, deltas

    def key(self):
        return (self.bs, self.tx, self.skip, self.ref, self.mode, self.deltas)


def rec_val(c, b, cache={}):
    k = b.key()
    if k not in cache:
        w, h = b.bs
        d = {".mode": en(c, "PredictionMode", b.mode),
             ".ref_frames": arr([en(c, "RefType", NAMES[b.ref]),
                                 en(c, "RefType", "NONE_FRAME")]),
             ".n4_w": K(w // 4), ".n4_h": K(h // 4), ".bsize": bsz(c, w, h),
             ".txsize": en(c, "TxSize", "TX_%dX%d" % b.tx),
             ".skip": K(b.skip),
             ".deblock_deltas": arr([K(x) for x in b.deltas])}
        ad = c.adt("context::block_unit::Block")
        fs = ["." + x[0] for x in ad["variants"][0][2]]
        cache[k] = agg("adt", ad["adt"], None, tuple(fs), tuple(
            d.get(f, sym("block" + f)) for f in fs))
    return cache[k]


def uvsize(bs, ss):
    """A block's transform size in a chroma plane."""
    w, h = max(bs[0] >> ss[0], 4), max(bs[1] >> ss[1], 4)
    return min(w, 32), min(h, 32)


def level(db, b, pli, vert):
    i = (0 if vert else 1) if pli == 0 else pli + 1
    return db["levels"][i]


def edge(db, recs, x, y, pli, ss, vert):
    """(filter size, level) of the edge at luma position x, y; None if it is
    not filtered."""
    b = recs[(x | ss[0], y | ss[1])]
    bw, bh = (max(b.bs[0] >> ss[0], 4), max(b.bs[1] >> ss[1], 4)) if pli \
        else b.bs
    px, py = (x >> ss[0]) * 4, (y >> ss[1]) * 4
    tx = uvsize(b.bs, ss) if pli else b.tx
    pos, size, t = (px, bw, tx[0]) if vert else (py, bh, tx[1])
    if pos % t:
        return None
    if pos % size and b.skip and b.ref > 0:
        return None
    q = recs[((x | ss[0]) - (1 << ss[0]), y | ss[1])] if vert else \
        recs[(x | ss[0], (y | ss[1]) - (1 << ss[1]))]
    ptx = uvsize(q.bs, ss) if pli else q.tx
    n = min(t, ptx[0] if vert else ptx[1])
    n = min(n, 14) if pli == 0 else min(n, 6)
    lv = level(db, b, pli, vert) or level(db, q, pli, vert)
    return (n, lv) if lv else None


# ------------------------------------------------------------- interpreter

def region_rect(v, sub=None):
    """(x, y) of an Area value in pixels of a plane."""
    if v.k != "agg":
        return None
    d = dict(zip(v.a[3], v.a[4]))
    n = v.a[2]
    if n in ("Rect", "StartingAt"):
        x, y = d.get(".x"), d.get(".y")
        return (x.a[0], y.a[0]) if isk(x) and isk(y) else None
    if n in ("BlockRect", "BlockStartingAt") and sub:
        d = dict(zip(d[".bo"].a[3], d[".bo"].a[4]))
        x, y = d.get(".x"), d.get(".y")
        if isk(x) and isk(y):
            return ((x.a[0] >> sub[0]) * 4, (y.a[0] >> sub[1]) * 4)
    return None


def pixel(x, y):
    return sym("px_%d_%d" % (x, y))


def block_hook(c, recs, pix, sub, conc):
    def hook(ae, st, n, rn, rec, x, site, line):
        p = norm(rn or n)
        m = last(p)
        q = norm(rec.get("rp") or rec["p"])
        if m in ("subregion_mut", "subregion") and len(x) == 2:
            r = region_rect(deref_k(st, x[1]), sub)
            if r is None:
                return None
            root = ("T", "pix", r[0], r[1])
            if root not in st.store:
                st.store[root] = arr([arr([
                    conc(r[0] + i, r[1] + j) for i in range(16)])
                    for j in range(16)])
            return [(st, agg("region", "region", None, (".r",), (
                mk("ref", root, (), 1),)))]
        if m in ("index", "index_mut") and x:
            v = deref_k(st, x[0])
            if v.k == "agg" and v.a[0] == "region" and isk(x[1]):
                r = v.a[4][0]
                return [(st, mk("ref", r.a[0], r.a[1] + (("i", x[1]),), 1))]
            if "TileBlocks" in q:
                if isk(x[1]):
                    y = x[1].a[0]
                    w = 1 + max(k[0] for k in recs)
                    z = Rec(0, 0, (4, 4), (4, 4))
                    return [(st, mk("ref", ("C", arr([rec_val(
                        c, recs.get((i, y), z)) for i in range(w)])), (), 0))]
                bo = bo_xy(x[1])
                if bo is not None:
                    if bo not in recs:
                        return []
                    return [(st, mk("ref", ("C", rec_val(c, recs[bo])), (),
                                    0))]
        if m in ("as_const", "as_mut") and len(x) == 1:
            v = deref_k(st, x[0])
            return [(st, v if v.k == "agg" and v.a[0] == "region" else
                     deref_k(st, x[0]))]
        if m in ("as_", "cast_from") and len(x) == 1:
            v = deref_k(st, x[0])
            if v.k in ("k", "sym", "op", "call", "cast"):
                return [(st, v)]
        return None
    return hook


def deblock_val(c, db):
    ad = c.adt("DeblockState")
    d = {"levels": arr([K(x) for x in db["levels"]]),
         "sharpness": K(0), "deltas_enabled": K(int(db["enabled"])),
         "ref_deltas": arr([K(x) for x in db["ref"]]),
         "mode_deltas": arr([K(x) for x in db["mode"]]),
         "block_deltas_enabled": K(int(db["block"])),
         "block_delta_shift": K(db["shift"]),
         "block_delta_multi": K(int(db["multi"]))}
    fs = [x[0] for x in ad["variants"][0][2]]
    return agg("adt", ad["adt"], None, tuple("." + x for x in fs), tuple(
        d.get(x, sym("deblock." + x)) for x in fs))


def adt_val(c, name, d):
    ad = c.adt(name)
    fs = [x[0] for x in ad["variants"][0][2]]
    return agg("adt", ad["adt"], None, tuple("." + x for x in fs), tuple(
        d.get(x, sym(last(name) + "." + x)) for x in fs))


def plane_of(c, st, sub, extra={}):
    st.store[("T", "pcfg")] = adt_val(c, "v_frame::plane::PlaneConfig", {
        "xdec": K(sub[0]), "ydec": K(sub[1])})
    st.store[("T", "preg")] = adt_val(
        c, "tiling::plane_region::PlaneRegionMut", dict({
            "plane_cfg": mk("ref", ("T", "pcfg"), (), 0)}, **extra))


def filter_edge(ctx, db, recs, x, y, pli, ss, vert, bd, conc):
    """Outcomes of filtering one edge: [(state, {(x, y): value})]."""
    c = ctx.lib
    f = fnamed(ctx, "deblock::filter_%s_edge" % ("v" if vert else "h"))
    sub = ss if pli else (0, 0)
    pol = CellPolicy(None, None, block_hook(c, recs, None, sub, conc))
    pol.count_unroll = 20
    pol.max_unroll = 40
    pol.max_steps = 60000
    pol.merge_on = False
    ae = _ae.AE(c, pol)
    a = []
    for p in params(f):
        a.append({"deblock": mk("ref", ("T", "deblock"), (), 0),
                  "bo": bo_of(c, K(x), K(y)), "p": mk("ref", ("T", "preg"), (), 1),
                  "pli": K(pli), "bd": K(bd),
                  "xdec": K(sub[0]), "ydec": K(sub[1])}.get(p, sym(p)))
    st = ae.start(f, a, auto=())
    st.store[("T", "deblock")] = deblock_val(c, db)
    plane_of(c, st, sub)
    outs = [o for o in ae.run(st) if o.kind == "ret"]
    ctx.saw(*ae.fns_seen)
    res = []
    for o in outs:
        w = {}
        for r in o.st.store:
            if isinstance(r, tuple) and r[:2] == ("T", "pix"):
                for j in range(16):
                    for i in range(16):
                        v = o.st.load((r, (("i", K(j)), ("i", K(i)))))
                        k = (r[2] + i, r[3] + j)
                        if v is not conc(*k):
                            w[k] = v
        res.append((o, w))
    return f, res


DB = {"levels": (20, 20, 20, 20), "enabled": 0, "ref": (1, 0, 0, 0, -1, 0, -1,
                                                         -1),
      "mode": (0, 0), "block": 0, "shift": 0, "multi": 0}


class Cases:
    """Outcomes of one row of an edge as functions of its 16 samples."""

    def __init__(self, res, atoms):
        self.rows, self.opaque = [], 0
        names = {a: "a[%d]" % i for i, a in enumerate(atoms)}
        for o, w in res:
            try:
                cond = []
                for t, r in o.st.facts.items():
                    if not mentions(t, names):
                        continue
                    e = expr(t, names)
                    cond.append(cterm.fact(e, r))
                env = dict(_env)
                cf = eval("lambda a: " + (" and ".join(cond) or "True"), env)
                wf = {k: eval("lambda a: " + expr(v, names), env)
                      for k, v in w.items()}
                self.rows.append((cf, wf))
            except Opaque:
                self.opaque += 1

    def at(self, a):
        """{pixel: value} written for samples a, or None when not known."""
        hit = [wf for cf, wf in self.rows if cf(a)]
        if len(hit) != 1:
            return None
        return {k: g(a) for k, g in hit[0].items()}


def mentions(t, names):
    return any(a in names for a in atoms(t))


def samples(bd, L, n, rnd):
    """Rows of 16 samples around the decisions of a filter of level L."""
    s = bd - 8
    one, lim = 1 << s, max(1, L) << s
    bl, th = (2 * (L + 2) + max(1, L)) << s, (L >> 4) << s
    top = (256 << s) - 1
    small = [0, 0, 0, one, -one, one + 1, -one - 1]
    mid = small + [th, th + 1, -th, -th - 1, one // 2]
    big = mid + [lim, lim + 1, -lim, -lim - 1, lim - 1]
    step = [0, one, 2 * one, bl // 2, bl // 2 + 1, -bl // 2, bl // 2 - 1,
            -bl // 2 - 1, bl // 4, -bl // 4, bl // 3]
    r = []
    for i in range(n):
        kind = i % 6
        pal = [small[:5], small, mid, big, [0, 1, -1], big][kind]
        base = rnd.choice([0, 1, top, top - 1, top // 2, top // 2 + 1,
                           rnd.randrange(top + 1), rnd.randrange(top + 1)])
        side = []
        for p0 in (base, base + rnd.choice(step)):
            v, out = p0, [p0]
            acc = rnd.random() < .5
            for j in range(7):
                d = rnd.choice(pal) if rnd.random() < .6 else 0
                v = v + d if acc else p0 + d
                out.append(v)
            side.append(out)
        r.append([min(max(x, 0), top) for x in side[0][::-1] + side[1]])
    return r


def edge_case(ctx, db, recs, x, y, pli, ss, vert, bd, row, n, key, what,
              rnd):
    """One edge of a plane against AV1's, for samples of one row."""
    sub = ss if pli else (0, 0)
    X, Y = (x >> sub[0]) * 4, (y >> sub[1]) * 4
    r = (Y if vert else X) + row
    e = X if vert else Y
    big = (1 << bd) - 1

    def conc(i, j):
        u, v = (i, j) if vert else (j, i)
        return pixel(i, j) if v == r else K(u % 2 * big)
    pos = [(e - 8 + i, r) if vert else (r, e - 8 + i) for i in range(16)]
    f, res = filter_edge(ctx, db, recs, x, y, pli, ss, vert, bd, conc)
    ctx.saw(f)
    cs = Cases(res, [pixel(*k) for k in pos])
    want = edge(db, recs, x, y, pli, sub, vert)
    ctx.obls += 1
    ctx.count("edges of a block layout, row by row")
    if cs.opaque or not res:
        ctx.count("edges without a closed form")
        return None
    miss = 0
    for a in samples(bd, want[1] if want else 20, n, rnd):
        got = cs.at(a)
        if got is None:
            miss += 1
            continue
        exp = list(a)
        if want:
            m = {4: 2, 6: 3, 8: 4, 14: 7}[want[0]]
            exp[8 - m:8 + m] = lf_samples(want[0], a[8 - m:8 + m], want[1],
                                          bd)
        have = list(a)
        odd = None
        for k, v in got.items():
            if k in pos:
                have[pos.index(k)] = v
            elif odd is None:
                odd = k
        ctx.count("sample rows compared")
        if have != exp or odd:
            i = next((i for i in range(16) if have[i] != exp[i]), None)
            ctx.violate(
                key,
                "%s: %s edge at block (%d, %d) of plane %d%s, depth %d: "
                "samples %s; AV1 %s, %s" % (
                    what, "vertical" if vert else "horizontal", x, y, pli,
                    " (subsampled %d,%d)" % ss if pli else "", bd,
                    a[2:14], "uses the %d-sample filter at level %d" % want
                    if want else "leaves the edge",
                    "sample %d is %d here, %d there" % (
                        i - 8, have[i], exp[i]) if i is not None
                    else "a sample of another row (%d, %d) changes" % odd),
                f.loc())
            return False
    if miss:
        ctx.count("sample rows no outcome or several describe", miss)
    return True


expr, _env = cterm.expr, cterm.ENV


# --------------------------------------------------------------- A: kernels
KERNEL = [((4, 4), 0), ((8, 8), 0), ((16, 16), 0), ((16, 16), 1)]
LEVELS = [1, 2, 6, 15, 16, 20, 31, 32, 47, 48, 63]


def kernels(ctx, part, of):
    k = -1
    for (tx, pli) in KERNEL:
        for vert in (1, 0):
            for bd in (8, 10, 12):
                for L in LEVELS:
                    k += 1
                    if k % of != part:
                        continue
                    rnd = random.Random(k)
                    b = Rec(0, 0, tx, tx)
                    edge_case(ctx, dict(DB, levels=(L,) * 4),
                              world(b, b, vert), 16, 16, pli, (1, 1), vert,
                              bd, (L + bd // 2 + vert) % 4, 240,
                              "samples", "a filtered edge differs from AV1's", rnd)


# ---------------------------------------------------- B: which edges and how
TX = {4: (4, 8, 16), 8: (4, 8, 16, 32), 16: (4, 8, 16, 32, 64),
      32: (8, 16, 32, 64), 64: (16, 32, 64)}


def txs_of(bs):
    """Transforms rav1e's luma blocks of a size may have."""
    w, h = min(bs[0], 64), min(bs[1], 64)
    r = [(w, h)]
    while r[-1] != (4, 4) and len(r) < 3:
        w, h = r[-1]
        if w == h:
            w, h = w // 2, h // 2
        elif w > h:
            w = max(w // 2, h) if w // h <= 2 else w // 2
        else:
            h = max(h // 2, w) if h // w <= 2 else h // 2
        r.append((w, h))
    return r


def world(cur, prev, vert, at=16):
    """cur at (at, at), aligned to its size; prev everywhere else."""
    recs = {}
    for y in range(0, at + 20):
        for x in range(0, at + 20):
            recs[(x, y)] = prev
    # the smallest chroma block of a subsampled plane covers 8x8 luma samples
    for y in range(at, at + max(cur.bs[1] // 4, 2)):
        for x in range(at, at + max(cur.bs[0] // 4, 2)):
            recs[(x, y)] = cur
    return recs


MODES = ["NEARESTMV", "GLOBALMV", "NEWMV", "NEAREST_NEARESTMV",
         "GLOBAL_GLOBALMV", "NEW_NEWMV"]


def decisions(ctx, part, of):
    sizes = [b for b in SIZES if max(b) <= 64]
    k = -1
    for cur in sizes:
        for tx in txs_of(cur):
            for vert in (1, 0):
                for pli, ss in ((0, (1, 1)), (1, (1, 1)), (2, (1, 0)),
                                (1, (0, 0))):
                    if pli and tx != txs_of(cur)[0]:
                        continue
                    if ss == (1, 0) and cur[0] < cur[1]:
                        continue
                    k += 1
                    if k % of != part:
                        continue
                    decision(ctx, cur, tx, vert, pli, ss,
                             random.Random(k))


def decision(ctx, bs, tx, vert, pli, ss, rnd):
    sub = ss if pli else (0, 0)
    others = [b for b in SIZES if max(b) <= 64 and
              not (ss == (1, 0) and b[0] < b[1])]
    n4 = max((bs[0] if vert else bs[1]) // 4, 1)
    offs = sorted({0, 1 << (sub[0] if vert else sub[1]),
                   (tx[0] if vert else tx[1]) // 4, n4 // 2,
                   2, 4, 8} & set(range(max(n4, 1))))
    for off in offs:
        st = 1 << (sub[0] if vert else sub[1])
        if off % st:
            continue
        for t in range(4 if off else 3):
            pb = rnd.choice(others)
            if t == 0:
                pb = max(others, key=lambda b: b[0 if vert else 1])
            skip, ref = (t & 1, (t >> 1) ^ 1) if off else \
                (rnd.randrange(2), rnd.randrange(2))
            lv = [rnd.choice([0, 3, 9, 17, 21, 38, 63]) if t == 2 else
                  3 + 17 * i + rnd.randrange(9) for i in range(4)]
            db = dict(DB, levels=tuple(lv))
            cur = Rec(0, 0, bs, tx, skip, ref * rnd.randrange(1, 8),
                      rnd.choice(MODES) if ref else "DC_PRED")
            r2 = rnd.randrange(2)
            prev = Rec(0, 0, pb, rnd.choice(txs_of(pb)), rnd.randrange(2),
                       r2 * rnd.randrange(1, 8),
                       rnd.choice(MODES) if r2 else "SMOOTH_PRED")
            x, y = (16 + off, 16) if vert else (16, 16 + off)
            edge_case(ctx, db, world(cur, prev, vert), x, y, pli, ss, vert,
                      8, rnd.randrange(4), 36,
                      "edges", "which edges are filtered, and how, differs from AV1's",
                      rnd)


# ----------------------------------------------------- C: edges of a plane
def reach(v, pli):
    if pli:
        return 3 if v % 2 == 0 else 2
    return 7 if v % 4 == 0 else 4 if v % 2 == 0 else 2


def plane_edges(ctx):
    c = ctx.lib
    f = fnamed(ctx, "deblock::deblock_plane")
    ctx.saw(f)
    for pli, ss in ((0, (0, 0)), (1, (1, 1)), (2, (1, 0)), (1, (0, 0))):
        for cols, rows, w, h in (
                (1, 1, 4, 4), (1, 4, 3, 16), (2, 2, 8, 5), (4, 4, 16, 16),
                (6, 5, 21, 18), (5, 6, 18, 22), (4, 4, 9, 16),
                (4, 4, 16, 9), (3, 1, 12, 4), (6, 6, 24, 24), (8, 4, 30, 13)):
            plane_case(ctx, c, f, pli, ss, cols, rows, w, h,
                       (9, 0, 9, 9) if pli == 0 else (0, 0, 9, 9))
    for pli, lv in ((0, (0, 0, 5, 5)), (0, (0, 7, 0, 0)), (0, (7, 0, 0, 0)),
                    (1, (5, 5, 0, 5)), (1, (5, 5, 3, 0)), (2, (5, 5, 0, 3)),
                    (2, (5, 5, 5, 0)), (0, (63, 63, 0, 0))):
        plane_case(ctx, c, f, pli, (0, 0) if not pli else (1, 1), 4, 4, 16,
                   16, lv)


def plane_case(ctx, c, f, pli, ss, cols, rows, w, h, lv):
    sub = ss if pli else (0, 0)
    db = dict(DB, levels=lv)

    def hook(ae, st, n, rn, rec, x, site, line):
        p = norm(rn or n)
        m = last(p)
        q = norm(rec.get("rp") or rec["p"])
        if m in ("filter_v_edge", "filter_h_edge"):
            bo = next((b for b in (bo_xy(deref_k(st, v)) for v in x)
                       if b is not None), None)
            st.auto = st.auto + ((m[7], bo),)
            return [(st, UNIT)]
        r = stepping(st, m, x)
        if r is not None:
            return r
        if m in ("cols", "rows") and len(x) == 1 and \
                "TileBlocks" in q:
            return [(st, K(cols if m == "cols" else rows))]
        return None
    pol = CellPolicy(None, None, hook)
    pol.count_unroll = 20
    pol.max_unroll = 40
    pol.max_steps = 60000
    pol.merge_on = False
    ae = _ae.AE(c, pol)
    a = [{"deblock": mk("ref", ("T", "deblock"), (), 0), "crop_w": K(w),
          "crop_h": K(h), "p": mk("ref", ("T", "preg"), (), 1),
          "pli": K(pli), "bd": K(8)}.get(p, sym(p)) for p in params(f)]
    st = ae.start(f, a, auto=())
    st.store[("T", "deblock")] = deblock_val(c, db)
    plane_of(c, st, sub, {"rect": adt_val(
        c, "tiling::plane_region::Rect", {
            "x": K(0), "y": K(0), "width": K(((w + 7) >> 3 << 3) >> sub[0]),
            "height": K(((h + 7) >> 3 << 3) >> sub[1])})})
    outs = [o for o in ae.run(st) if o.kind == "ret"]
    ctx.saw(*ae.fns_seen)
    ctx.obls += 1
    if len(outs) != 1:
        ctx.count("planes whose edges are not one list")
        return
    ev = list(outs[0].st.auto)
    if any(b is None for m, b in ev):
        ctx.count("planes whose edges are not one list")
        return
    ctx.count("edges of a plane, in order", len(ev))
    dx, dy = 1 << sub[0], 1 << sub[1]
    on = (lv[0] or lv[1]) if pli == 0 else lv[pli + 1]
    want = set()
    for y in range(0, rows, dy):
        for x in range(0, cols, dx):
            if not on or x * 4 >= w or y * 4 >= h:
                continue
            if x:
                want.add(("v", (x, y)))
            if y:
                want.add(("h", (x, y)))

    def bad(m):
        ctx.violate("plane", "the edges of a plane differ from AV1's: "
                    "plane %d (subsampled %d,%d) of %dx%d samples, levels "
                      "%s: %s" % (pli, sub[0], sub[1], w, h, lv, m), f.loc())
    got = {}
    for i, e in enumerate(ev):
        if e in got:
            return bad("the %s edge at block %s is filtered twice" % (
                "vertical" if e[0] == "v" else "horizontal", e[1]))
        got[e] = i
    # an edge at the frame's border has no block before it
    d = (want ^ set(got))
    if d:
        e = min(d)
        return bad("the %s edge at block %s is%s filtered" % (
            "vertical" if e[0] == "v" else "horizontal", e[1],
            "" if e in got else " not"))
    for (m, (x, y)), i in got.items():
        if m != "h":
            continue
        X, Y = x >> sub[0], y >> sub[1]
        for (m2, (x2, y2)), j in got.items():
            if m2 != "v" or j < i:
                continue
            U, V = x2 >> sub[0], y2 >> sub[1]
            ru, rv = reach(U, pli), reach(Y, pli)
            if 4 * U - ru <= 4 * X + 3 and 4 * U + ru > 4 * X and \
                    4 * Y - rv <= 4 * V + 3 and 4 * Y + rv > 4 * V:
                return bad("the horizontal edge at block (%d, %d) is filtered"
                           " before the vertical edge at (%d, %d) whose "
                           "samples it uses" % (x, y, x2, y2))


def run(ctx):
    n = 14
    ctx.parallel(
        [lambda x, i=i: kernels(x, i, n) for i in range(n)] +
        [lambda x, i=i: decisions(x, i, n) for i in range(n)] +
        [lambda x, i=i: [cdef.run_superblock(x, s)
                         for s in range(i, 60, 4)] for i in range(4)] +
        [lambda x, i=i: [cdef.run_block(x, s)
                         for s in range(i, 96, 6)] for i in range(6)] +
        [plane_edges, cdef.run_constrain, cdef.run_direction, cdef.run_tile,
         cdef.run_analyze, cdef.run_frame])
    for k, least in (("sample rows compared", 40000),
                     ("edges of a plane, in order", 500),
                     ("CDEF blocks of a plane", 500),
                     ("CDEF samples compared", 10000), ("constraints", 100),
                     ("directions compared", 500), ("CDEF tiles", 4),
                     ("directions of blocks", 60), ("filter orders", 20)):
        ctx.floor(k, ctx.counts.get(k, 0), least)

"""C24: motion vector candidates are the ones AV1's decoder derives."""
import random
from sa.val import *
from sa.gate import *
from sa.prog import norm
from sa import ae as _ae
from checks.c18 import arr
from checks.c19 import fnamed
from checks.c21 import en, params, bo_of, bo_xy, place
from checks.c22 import (CW, mv_of, elements, vec_like, val_of, bsz, hook_of,
                        Run)

RULE = """The candidate search is interpreted on blocks of coded layouts: random
quadtree partitions of tiles inside and at the edges of a frame, each block of
every mode and reference class, blocks not yet coded holding misleading values.
The stack (order, vectors, weights' class) and the mode context are compared
with AV1's motion vector prediction process, whose availability rule is the
decoding order itself."""
ASSUME = ["global motion is identity and temporal candidates are off, as rav1e "
          "codes them", "superblocks are 64x64"]
SINGLE = ["NEARESTMV", "NEAR0MV", "NEAR1MV", "GLOBALMV", "NEWMV", "NEWMV"]
COMP = ["NEAREST_NEARESTMV", "NEAR_NEAR0MV", "NEAREST_NEWMV", "NEW_NEARESTMV",
        "NEAR_NEW0MV", "NEW_NEAR1MV", "GLOBAL_GLOBALMV", "NEW_NEWMV"]
NAMES = ["INTRA_FRAME", "LAST_FRAME", "LAST2_FRAME", "LAST3_FRAME",
         "GOLDEN_FRAME", "BWDREF_FRAME", "ALTREF2_FRAME", "ALTREF_FRAME",
         "NONE_FRAME"]
PAIRS = [(1, 7), (1, 7), (1, 5), (4, 7), (2, 6), (1, 8), (1, 8), (1, 8),
         (4, 8), (7, 8), (7, 8), (5, 8), (2, 8)]


class Blk:
    def __init__(self, x, y, w, h, mode, refs, mvs):
        self.x, self.y, self.w, self.h = x, y, w, h
        self.mode, self.refs, self.mvs = mode, refs, mvs

    inter = property(lambda s: s.mode != "DC_PRED")
    new = property(lambda s: "NEW" in s.mode)


def attrs(rng, mvs, mostly=None):
    k = rng.random()
    if k < 0.15:
        return "DC_PRED", (0, 8), ((0, 0), (0, 0))
    r = mostly if mostly and rng.random() < 0.6 else rng.choice(PAIRS)
    m = rng.choice(SINGLE if r[1] == 8 else COMP)
    a = rng.choice(mvs)
    b = rng.choice(mvs) if r[1] != 8 else (0, 0)
    return m, r, (a, b)


def layout(rng, cols, rows, mvs, mostly):
    """Blocks of a tile in coding order."""
    out = []

    def add(x, y, w, h):
        if x < cols and y < rows:
            out.append(Blk(x, y, w, h, *attrs(rng, mvs, mostly)))

    def part(x, y, n):
        if x >= cols or y >= rows:
            return
        half = n // 2
        rr, cc = y + half < rows, x + half < cols
        if rr and cc:
            k = rng.choice("NNHVSS" if n > 4 else "NNHVS")
        elif cc:
            k = rng.choice("HS") if n > 2 else "S"
        elif rr:
            k = rng.choice("VS") if n > 2 else "S"
        else:
            k = "S"
        if k == "N":
            add(x, y, n, n)
        elif k == "H":
            add(x, y, n, half)
            add(x, y + half, n, half)
        elif k == "V":
            add(x, y, half, n)
            add(x + half, y, half, n)
        elif n == 2:
            for dy in (0, 1):
                for dx in (0, 1):
                    add(x + dx, y + dy, 1, 1)
        else:
            for dy in (0, half):
                for dx in (0, half):
                    part(x + dx, y + dy, half)
    for y in range(0, rows, 16):
        for x in range(0, cols, 16):
            part(x, y, 16)
    return out


def sgn(bias, a, b):
    return -1 if bias[a - 1] != bias[b - 1] else 1


def mvref(grid, tile, frame, b, refs, bias):
    """AV1's motion vector prediction (7.10.2); grid holds the blocks coded
    before this one; (stack of [mv0, mv1, weight], mode context)"""
    cols, rows = tile[2:]
    comp = refs[1] > 0 and refs[1] != 8
    st = []
    new = [0]
    cx, cy, bw, bh = b.x, b.y, b.w, b.h

    def at(x, y):
        if not (0 <= x < cols and 0 <= y < rows):
            return None
        return grid.get((x, y))

    def push(v, w, n):
        for e in st:
            if e[0] == v[0] and e[1] == v[1]:
                e[2] += w
                return
        if len(st) < 8:
            st.append([v[0], v[1], w])

    def add(c, w):
        if not c.inter:
            return False
        hit = False
        if comp:
            if c.refs == refs:
                hit = True
                new[0] += c.new
                push(c.mvs, w, 2)
        else:
            for i in (0, 1):
                if c.refs[i] == refs[0]:
                    hit = True
                    new[0] += c.new
                    push((c.mvs[i], (0, 0)), w, 1)
        return hit

    def row(d):
        dx = 0
        if abs(d) > 1:
            d += cy & 1
            dx = 1 - (cx & 1)
        hit = False
        i = 0
        while i < min(bw, cols - cx, 16):
            c = at(cx + dx + i, cy + d)
            if c is None:
                break
            n = min(bw, c.w)
            if abs(d) > 1:
                n = max(2, n)
            if bw >= 16:
                n = max(4, n)
            hit |= add(c, n * 2)
            i += n
        return hit

    def col(d):
        dy = 0
        if abs(d) > 1:
            d += cx & 1
            dy = 1 - (cy & 1)
        hit = False
        i = 0
        while i < min(bh, rows - cy, 16):
            c = at(cx + d, cy + dy + i)
            if c is None:
                break
            n = min(bh, c.h)
            if abs(d) > 1:
                n = max(2, n)
            if bh >= 16:
                n = max(4, n)
            hit |= add(c, n * 2)
            i += n
        return hit

    def point(dx, dy):
        c = at(cx + dx, cy + dy)
        return c is not None and add(c, 4)

    above = row(-1)
    left = col(-1)
    if max(bw, bh) <= 16 and point(bw, -1):
        above = True
    close = above + left
    near, nnew = len(st), new[0]
    for e in st:
        e[2] += 640
    if point(-1, -1):
        above = True
    for d in (-3, -5):
        # narrow blocks look two 8x8 rows and columns away at most
        if d == -3 or bh > 1:
            above |= row(d)
        if d == -3 or bw > 1:
            left |= col(d)
    total = above + left
    st[:near] = sorted(st[:near], key=lambda e: -e[2])
    st[near:] = sorted(st[near:], key=lambda e: -e[2])
    if len(st) < 2:
        extra(at, b, refs, bias, st, comp, cols, rows)
    fx, fy = tile[0] + cx, tile[1] + cy
    for e in st:
        for i in (0, 1):
            e[i] = (clamp(e[i][0], fy, bh, frame[1]),
                    clamp(e[i][1], fx, bw, frame[0]))
    ctx = {0: (min(total, 1), total), 1: (3 - min(nnew, 1), 2 + total),
           2: (5 - min(nnew, 1), 5)}[close]
    return st, ctx


def clamp(v, at, n, size):
    bd = 128 + n * 4 * 8
    return min(max(v, -at * 32 - bd), (size - n - at) * 32 + bd)


def extra(at, b, refs, bias, st, comp, cols, rows):
    ids, diffs = [[], []], [[], []]
    n = min(16, b.w, cols - b.x)
    n = min(n, 16, b.h, rows - b.y)
    for p in (0, 1):
        i = 0
        while i < n and len(st) < 2:
            c = at(b.x + i, b.y - 1) if not p else at(b.x - 1, b.y + i)
            if c is None:
                break
            for k in (0, 1):
                r = c.refs[k]
                if not 0 < r < 8:
                    continue
                if comp:
                    for l in (0, 1):
                        if r == refs[l] and len(ids[l]) < 2:
                            ids[l].append(c.mvs[k])
                        elif len(diffs[l]) < 2:
                            s = sgn(bias, r, refs[l])
                            diffs[l].append((c.mvs[k][0] * s,
                                             c.mvs[k][1] * s))
                else:
                    s = sgn(bias, r, refs[0])
                    v = (c.mvs[k][0] * s, c.mvs[k][1] * s)
                    if all(e[0] != v for e in st):
                        st.append([v, (0, 0), 2])
            i += c.w if not p else c.h
    if not comp:
        return
    cm = [[(0, 0), (0, 0)], [(0, 0), (0, 0)]]
    for l in (0, 1):
        q = (ids[l] + diffs[l])[:2]
        for i, v in enumerate(q):
            cm[i][l] = v
    if len(st) == 1:
        k = 1 if cm[0] == st[0][:2] else 0
        st.append([cm[k][0], cm[k][1], 2])
    else:
        for i in (0, 1):
            st.append([cm[i][0], cm[i][1], 2])


def blk_val(c, b, cache={}):
    k = (b.w, b.h, b.mode, b.refs, b.mvs)
    if k not in cache:
        d = {".mode": en(c, "PredictionMode", b.mode),
             ".ref_frames": arr([en(c, "RefType", NAMES[r]) for r in b.refs]),
             ".mv": arr([mv_of(c, *v) for v in b.mvs]),
             ".n4_w": K(b.w), ".n4_h": K(b.h),
             ".bsize": bsz(c, b.w * 4, b.h * 4), ".skip": K(0)}
        ad = c.adt("context::block_unit::Block")
        fs = ["." + x[0] for x in ad["variants"][0][2]]
        cache[k] = agg("adt", ad["adt"], None, tuple(fs), tuple(
            d.get(f, sym("block" + f)) for f in fs))
    return cache[k]


def search(ctx, full, tile, frame, b, refs, bias):
    """Outcomes of find_mvrefs for block b."""
    c = ctx.lib
    f = fnamed(ctx, CW + "find_mvrefs")
    stack = ("T", "mvstack")
    boring = Blk(0, 0, 1, 1, "NEWMV", (refs[0], refs[1]),
                 ((-88, 96), (88, 104) if refs[1] != 8 else (0, 0)))
    rowv = {}

    def cell(x, y):
        return blk_val(c, full.get((x, y), boring))

    def over(ae, st, m, x, rec):
        p = norm(rec.get("rp") or rec["p"])
        if m in ("index", "index_mut") and "TileBlocks" in p:
            i = x[1]
            if isk(i):
                y = i.a[0]
                if y not in rowv:
                    rowv[y] = arr([cell(q, y) for q in range(tile[2])])
                return [(st, mk("ref", ("C", rowv[y]), (), 0))]
            bo = bo_xy(i)
            if bo and all(isinstance(q, int) for q in bo):
                if not (0 <= bo[0] < tile[2] and 0 <= bo[1] < tile[3]):
                    return []
                return [(st, mk("ref", ("C", cell(*bo)), (), 0))]
        if m in ("sort_by", "sort_by_key", "sort_unstable_by_key") and \
                x[0].k == "ref":
            return sort(ae, st, m, x)
        if "ArrayVec" in p or m in ("deref", "deref_mut") and \
                x[0].k == "ref" and vec_like(st.load((x[0].a[0], x[0].a[1]))):
            return vec(ae, st, m, x)
        return None
    root = stack
    a = []
    for p in params(f):
        a.append({
            "bo": bo_of(c, K(b.x), K(b.y)),
            "ref_frames": arr([en(c, "RefType", NAMES[r]) for r in refs]),
            "mv_stack": mk("ref", root, (), 1),
            "bsize": bsz(c, b.w * 4, b.h * 4),
            "is_compound": K(int(0 < refs[1] < 8))}.get(p, sym(p)))
    pol = CellPolicy(None, None, hook_of(over))
    pol.count_unroll = 32
    pol.recurse = 2
    pol.max_unroll = 120
    pol.max_steps = 200000
    pol.merge_on = False
    ae = _ae.AE(c, pol)
    st = ae.start(f, a, auto=())
    st.store[root] = arr([])
    dim = dict(zip((".x", ".y", ".cols", ".rows"), tile))
    dim.update(zip((".frame_cols", ".frame_rows"), frame))
    ad = c.adt("TileBlocksMut")
    fs = ["." + x[0] for x in ad["variants"][0][2]]
    st.store[("T", "blocks")] = agg("adt", ad["adt"], None, tuple(fs), tuple(
        K(dim[x]) if x in dim else sym("blocks" + x) for x in fs))
    st.put(place("self", "bc.blocks"), mk("ref", ("T", "blocks"), (), 1))
    st.put(place("fi", "ref_frame_sign_bias"), arr([K(q) for q in bias]))
    outs = [o for o in ae.run(st) if o.kind == "ret"]
    ctx.saw(*ae.fns_seen)
    ctx.count("searches")
    return outs, root


def vec(ae, st, m, x):
    if m == "new" and not x:
        return [(st, arr([]))]
    if not x or x[0].k != "ref":
        return None
    pl = (x[0].a[0], x[0].a[1])
    v = st.load(pl)
    n = 0
    while v.k == "ref" and n < 3:
        pl = (v.a[0], v.a[1])
        v = st.load(pl)
        n += 1
    if not vec_like(v):
        return None
    vs = list(v.a[4])
    r = mk("ref", pl[0], pl[1], x[0].a[2])
    if m == "push":
        st.put(pl, arr(vs + [x[1]]))
        return [(st, UNIT)]
    if m == "len":
        return [(st, K(len(vs)))]
    if m == "is_empty":
        return [(st, K(int(not vs)))]
    if m in ("deref", "deref_mut", "as_slice", "as_mut_slice"):
        return [(st, r)]
    if m in ("into_iter", "iter", "iter_mut"):
        return [(st, _ae.mkiter(r))]
    if m in ("index", "index_mut") and isk(x[1]):
        return [(st, mk("ref", pl[0], pl[1] + (("i", x[1]),), x[0].a[2]))]
    return None


def sort(ae, st, m, x):
    """A stable sort by a comparison or key the closure decides."""
    pl = (x[0].a[0], x[0].a[1])
    v = st.load(pl)
    if not vec_like(v):
        return None
    st = st.copy()
    fr = ("T", "sortf", len(st.frames))
    st.store[fr] = x[1]
    fv = mk("ref", fr, (), 1)

    def tmp(e, t):
        st.store[("T", "sort", t)] = e
        return mk("ref", ("T", "sort", t), (), 0)

    def one(args):
        r = ae.subcall(st, fv, args, ("sort", 0))
        return r[0][1] if len(r) == 1 else None
    out = []
    for e in v.a[4]:
        i = len(out)
        while i > 0:
            if m == "sort_by":
                r = one([tmp(out[i - 1], 0), tmp(e, 1)])
                g = order(r)
                if g is None:
                    return None
                if g <= 0:
                    break
            else:
                ks = [one([tmp(q, 0)]) for q in (out[i - 1], e)]
                ks = [key(q) for q in ks]
                if None in ks:
                    return None
                if ks[0] <= ks[1]:
                    break
            i -= 1
        out.insert(i, e)
    st.put(pl, arr(out))
    return [(st, UNIT)]


def order(v):
    """The sign of an Ordering."""
    if v is None:
        return None
    if v.k == "agg" and v.a[2] in ("Less", "Equal", "Greater"):
        return ("Less", "Equal", "Greater").index(v.a[2]) - 1
    if v.k == "call" and isinstance(v.a[0], str):
        nm = v.a[0].rsplit("::", 1)[-1]
        x = v.a[1]
        if nm == "cmp" and len(x) == 2 and all(isk(q) for q in x):
            return (x[0].a[0] > x[1].a[0]) - (x[0].a[0] < x[1].a[0])
        if nm == "reverse" and len(x) == 1:
            r = order(x[0])
            return None if r is None else -r
    return None


def key(v):
    if v is None:
        return None
    if isk(v):
        return v.a[0]
    if v.k == "agg" and v.a[1] and v.a[1].endswith("Reverse") and \
            isk(v.a[4][0]):
        return -v.a[4][0].a[0]
    return None


def pair(v):
    return tuple(val_of(x) for x in v.a[4]) if v.k == "agg" else None


def got(ctx, o, root):
    v = o.st.load((root, ()))
    out = []
    if not vec_like(v):
        return None
    for e in v.a[4]:
        d = dict(zip(e.a[3], e.a[4])) if e.k == "agg" else {}
        q = [pair(d.get(k, UNIT)) for k in (".this_mv", ".comp_mv")]
        out.append([q[0], q[1], val_of(d.get(".weight", UNIT))])
    return out


MVS = [[(0, 0), (8, -16), (-24, 6), (32, 32), (8, -16)],
       [(0, 0), (2, 4), (4, 2), (-6, 8), (10, -12), (16, 14), (-18, -20),
        (22, 24), (26, -28), (30, 34)],
       [(0, 0), (-4000, 16), (3000, -5000), (8, 6000), (-9000, -9000),
        (9000, 9000)],
       [(0, 0), (0, 8), (8, 0), (8, 8), (-8, 8)]]
TILES = [((0, 0, 32, 32), (32, 32)), ((0, 0, 22, 26), (22, 26)),
         ((16, 16, 32, 20), (64, 36)), ((0, 0, 48, 18), (48, 18)),
         ((32, 0, 14, 32), (46, 32))]


def trial(ctx, seed):
    rng = random.Random(seed)
    tile, frame = TILES[seed % len(TILES)]
    mvs = MVS[seed // 5 % 4]
    refs0 = rng.choice(PAIRS)
    bl = layout(rng, tile[2], tile[3], mvs, refs0)
    bias = [0, 0, 0, 0, 1, 1, 1] if seed % 4 else [0, 0, 0, 0, 0, 1, 1]
    full = {}
    # what memory holds where nothing has been coded yet: an older layout
    for b in layout(random.Random(seed + 1000), tile[2], tile[3], MVS[1],
                    refs0):
        for y in range(b.y, min(b.y + b.h, tile[3])):
            for x in range(b.x, min(b.x + b.w, tile[2])):
                full[(x, y)] = b
    grid = {}
    pick = set(rng.sample(range(len(bl)), min(14, len(bl))))
    for i, b in enumerate(bl):
        if i in pick:
            one(ctx, full, grid, tile, frame, b, refs0 if i % 3 else
                rng.choice(PAIRS), bias, seed)
        for y in range(b.y, min(b.y + b.h, tile[3])):
            for x in range(b.x, min(b.x + b.w, tile[2])):
                full[(x, y)] = grid[(x, y)] = b


def one(ctx, full, grid, tile, frame, b, refs, bias, seed):
    if 0 < refs[1] < 8 and min(b.w, b.h) < 2:
        refs = (refs[0], 8)
    f = fnamed(ctx, CW + "find_mvrefs")
    outs, root = search(ctx, full, tile, frame, b, refs, bias)
    what = "%dx%d at %d,%d of tile %s, references %s (layout %d)" % (
        b.w * 4, b.h * 4, b.x, b.y, tile, refs, seed)
    if not ctx.ob(len(outs) == 1, "search", "%d outcomes for %s" % (
            len(outs), what), f.loc()):
        return
    st, cx = mvref(grid, tile, frame, b, refs, bias)
    g = got(ctx, outs[0], root)
    same = g is not None and [e[:2] for e in g] == [e[:2] for e in st]
    ctx.ob(same, "stack", "%s: the list is %s, AV1's is %s" % (
        what, g, st), f.loc())
    if same:
        ctx.ob([e[2] >= 640 if isinstance(e[2], int) else None for e in g] ==
               [e[2] >= 640 for e in st], "weights", "%s: weights %s, AV1's "
               "%s" % (what, [e[2] for e in g], [e[2] for e in st]), f.loc())
    r = val_of(outs[0].ret)
    want = cx[0] | cx[1] << 4
    ctx.ob(r == want, "mode_context", "%s: mode context %s, AV1's new %d, "
           "reference %d" % (what, show(r) if isinstance(r, V) else r, *cx),
           f.loc())


def run(ctx):
    from checks import modes

    def part(seeds):
        return lambda x: [trial(x, s) for s in seeds]
    ctx.parallel([part(range(i, 400, 40)) for i in range(40)] +
                 [lambda x, i=i: modes.run(x, i, 6) for i in range(6)])
    ctx.floor("searches", ctx.counts.get("searches", 0), 1000)
    ctx.floor("mode decisions", ctx.counts.get("mode decisions", 0), 300)

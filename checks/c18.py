"""C18: what the entropy coder writes is what a decoder reads back."""
from sa.val import *
from sa.gate import *
from sa import ae as _ae
from sa.gram import bitio_event
from sa.cterm import compile_, Opaque

RULE = """The range coder's state update is interpreted for every carry count
and normalisation shift, giving closed terms for the interval, the bits moved
out and the bits kept; these are compared with the AV1 decoder's interval
formula and checked for conservation of every bit.  Adaptation of the
distributions is interpreted for every alphabet size and symbol (SIMD
intrinsics modelled lane by lane) and compared with the specification's over
the whole range of a probability.  The variable-length codes are interpreted
per value and read back by the specification's parsing process."""
ASSUME = ["the compiler's integer arithmetic",
          "SIMD intrinsics behave as documented by the vendor"]

ST = "StorageBackend::store"


def last(n):
    return n.rsplit("::", 1)[-1]


def arr(vals):
    return agg("array", None, None, (), tuple(vals))


def ev(ctx, f, args, store=None, call=None, count=64, auto=None):
    def hook(a, st, n, rn, rec, args, site, line):
        if call is not None:
            r = call(a, st, n, rn, rec, args, site, line)
            if r is not None:
                return r
        return common(a, st, n, rn, rec, args, site, line)
    pol = CellPolicy(None, None, hook)
    pol.max_steps = 200000
    pol.count_unroll = count
    pol.max_unroll = max(pol.max_unroll, count)
    a = _ae.AE(ctx.lib, pol)
    st = a.start(f, args, auto=auto)
    for k, v in (store or {}).items():
        if isinstance(k, str):
            st.store[("X", sym(k))] = v
        else:
            st.put((("X", sym(k[0])), elems(k[1])), v)
    outs = a.run(st)
    ctx.saw(*a.fns_seen)
    ctx.count("abstract_steps", a.steps)
    return [o for o in outs if o.kind == "ret"]


def ref_of(a, mut=1):
    return a if a.k == "ref" else mk("ref", ("X", a), (), mut)


def vecval(st, a):
    r = ref_of(a)
    return r, st.load((r.a[0], r.a[1]))


def common(a, st, n, rn, rec, args, site, line):
    """Fixed-length arrays and vectors, element by element."""
    l = last(rn)
    if not args:
        if l == "new" and "Vec" in rn:
            return [(st, arr(()))]
        return None
    if l == "len":
        ln = a.length(st, ref_of(args[0]))
        if isk(ln):
            return [(st, ln)]
    if l in ("last_mut", "last", "first", "first_mut"):
        r = ref_of(args[0])
        ln = a.length(st, r)
        if isk(ln):
            if not ln.a[0]:
                return [(st, NONE)]
            return [(st, some(_ae.elemref(r, K(
                ln.a[0] - 1 if "last" in l else 0))))]
    if l in ("get_unchecked", "get_unchecked_mut") and isk(args[1]):
        return [(st, _ae.elemref(ref_of(args[0]), args[1]))]
    if l in ("as_mut_ptr", "as_ptr"):
        return [(st, ref_of(args[0]))]
    if "Vec" in rn or l == "from_elem" or l in ("index", "index_mut", "deref",
                                                "deref_mut"):
        if l == "from_elem" and isk(args[1]):
            return [(st, arr([args[0]] * args[1].a[0]))]
        r, v = vecval(st, args[0])
        if v.k == "st":
            return None
        if v.k == "agg" and v.a[0] == "array":
            if l == "push":
                st.put((r.a[0], r.a[1]), arr(v.a[4] + (args[1],)))
                return [(st, UNIT)]
            if l == "len":
                return [(st, K(len(v.a[4])))]
            if l in ("truncate",) and isk(args[1]):
                st.put((r.a[0], r.a[1]), arr(v.a[4][:args[1].a[0]]))
                return [(st, UNIT)]
            if l == "clear":
                st.put((r.a[0], r.a[1]), arr(()))
                return [(st, UNIT)]
            if l in ("index", "index_mut") and len(args) > 1 and \
                    args[1].k == "k":
                return [(st, _ae.elemref(r, args[1]))]
            if l in ("deref", "deref_mut", "as_slice", "as_mut_slice"):
                return [(st, r)]
    return None


def fields(v):
    """{field: value} of a value after writes."""
    d = {}
    if v.k == "st":
        d.update(fields(v.a[0]))
        for e, x in v.a[1]:
            d[e if isinstance(e, str) else e[0]] = x
    elif v.k == "agg":
        d.update(zip(v.a[3], v.a[4]))
    return d


def F(ctx, backend, m):
    for f in ctx.lib.fns.values():
        if f.nname == "<ec::WriterBase<ec::%s> as ec::StorageBackend>::%s" % (
                backend, m):
            return f
    return ctx.fn("%s::%s" % (backend, m))


def W(ctx, m):
    for f in ctx.lib.fns.values():
        if f.nname == "<ec::WriterBase<S> as ec::Writer>::" + m:
            return f
    raise KeyError("no Writer::" + m)


def run(ctx):
    interval(ctx)
    finish(ctx)
    replay(ctx)
    symbols(ctx)
    adapt(ctx)
    codes(ctx)


R, FL, FH, NMS, LOW = (sym(x) for x in ("R", "fl", "fh", "nms", "low"))
ATOMS = [R, FL, FH, NMS, LOW]


def spec_interval(r, fl, fh, nms):
    u = (((r >> 8) * (fl >> 6)) >> 1) + 4 * nms if fl < 32768 else r
    v = (((r >> 8) * (fh >> 6)) >> 1) + 4 * (nms - 1)
    return r - u, u - v


def grid(hi):
    """Points of the interval computation: all range bytes, spread CDFs."""
    fs = sorted({0, 1, 63, 64, 127, 128, 4096, 16383, 16384, 20000, 32703,
                 32704, 32767} | {i * 1092 for i in range(30)})
    for rb in range(128):
        r = 32768 + rb * 256 + (rb * 37) % 256
        for nms in (2, 3, 4, 9, 16):
            if hi:
                for fh in fs:
                    yield r, 32768, fh, nms
            else:
                for i, fl in enumerate(fs):
                    for fh in fs[:i + 1:3]:
                        yield r, fl, fh, nms


def interval(ctx):
    """Every backend narrows the range as the decoder does; no bit is lost."""
    pts = {h: list(grid(h)) for h in (0, 1)}
    for be in ("WriterEncoder", "WriterRecorder", "WriterCounter"):
        f = F(ctx, be, "store")
        enc = be == "WriterEncoder"
        proved = set()
        for c in (range(-9, 0) if enc else (-9,)):
            for d in (range(0, 14) if enc else (0, 5)):
                args = []

                def call(a, st, n, rn, rec, ar, site, line):
                    if last(rn) == "leading_zeros":
                        args.append(ar[0])
                        st.auto = (st.auto or ()) + (("lz", ar[0]),)
                        return [(st, K(d))]
                    if last(rn) == "push" and "Vec" in rn:
                        st.auto = (st.auto or ()) + (("push", ar[1]),)
                        return [(st, UNIT)]
                key = "store:%s" % be
                outs = ev(ctx, f, [sym("self"), FL, FH, NMS], {
                    ("self", "rng"): R, ("self", "cnt"): K(c),
                    ("self", "s.low"): LOW, ("self", "s.bits"): sym("bits")},
                    call)
                ctx.ob(bool(outs), key, "store never returns", f.loc())
                for o in outs:
                    one_store(ctx, key, f, o, be, c, d, pts, proved)


def one_store(ctx, key, f, o, be, c, d, pts, proved):
    evs = o.st.auto or ()
    lz = [x for k, x in evs if k == "lz"]
    pushes = [x for k, x in evs if k == "push"]
    s = fields(o.st.load((("X", sym("self")), ())))
    inner = fields(s.get(".s", UNIT))
    rf = o.st.rng(FL)
    lo = f_lohi(rf)[0]
    hi = 1 if lo is not None and lo >= 32768 else 0
    if not ctx.ob(len(set(lz)) == 1, key + ":norm", "the range is normalised "
                  "by %d shifts" % len(set(lz)), f.loc()):
        return
    r = lz[0]
    try:
        if (r, hi, be) not in proved:
            g = compile_(r, ATOMS[:4])
            bad = next((p for p in pts[hi] if g(*p) != spec_interval(*p)[1]),
                       None)
            ctx.ob(bad is None, key + ":range", "range %s: with range %s and "
                   "frequencies %s the decoder's range is %s, the encoder's "
                   "%s" % (("upper" if hi else "inner",) + (
                       (bad[0], bad[1:], spec_interval(*bad)[1], g(*bad))
                       if bad else (0, 0, 0, 0))), f.loc())
            proved.add((r, hi, be))
        rng = s.get(".rng")
        g = compile_(rng, ATOMS[:4]) if rng is not None else None
        gr = compile_(r, ATOMS[:4])
        p = (51234, 32768 if hi else 300 << 6, 100 << 6, 4)
        wr = gr(*p) << d
        ctx.ob(g is not None and g(*p) & 0xffff == wr & 0xffff,
               key + ":rng", "the range after shifting by %d is %s" % (
                   d, show(rng or UNIT)[:60]), f.loc())
        if be != "WriterEncoder":
            ctx.ob(inner.get(".bits") is op("Add", sym("bits"), K(d)) or
                   show(inner.get(".bits", UNIT)) in (
                       "Add(bits,%d)" % d, "bits" if d == 0 else "?"),
                   key + ":bits", "after %d bits the count is %s" % (
                       d, show(inner.get(".bits", UNIT))), f.loc())
            if be == "WriterRecorder":
                ok_ = len(pushes) == 1 and pushes[0].k == "agg" and \
                    pushes[0].a[4] == (FL, FH, NMS)
                ctx.ob(ok_, key + ":token", "the token recorded is %s" %
                       [show(x)[:40] for x in pushes], f.loc())
            else:
                ctx.ob(not pushes, key + ":token", "a counter stores tokens",
                       f.loc())
            return
        # bit conservation
        cnt = s.get(".cnt", K(c))
        np_ = len(pushes)
        if not ctx.ob(isk(cnt) and cnt.a[0] == c + d - 8 * np_ and
                      -9 <= cnt.a[0] <= -1, key + ":cnt",
                      "with %d bits pending and a shift of %d, %d bytes go "
                      "out and %s bits are pending" % (c, d, np_, show(cnt)),
                      f.loc()):
            return
        P = [compile_(x, ATOMS) for x in pushes]
        low = inner.get(".low")
        L = compile_(low if low is not None else LOW, ATOMS)
        if hi:
            pt = [(p + (1 << i,)) for i in range(26 + c)]
            pt += [p + (x,) for x in (0, (1 << (26 + c)) - 1, 0xA5A5A5A5 &
                                      ((1 << (26 + c)) - 1))]
        else:
            lim = (1 << (26 + c)) - (1 << 16)
            pt = [q + (x % lim,) for q in pts[0][::997]
                  for x in (0, 1, 0x12345, 0x5A5A5A5, lim - 1)]
        bad = None
        for q in pt:
            X = q[4] + spec_interval(*q[:4])[0]
            tot, w = 0, c + 16
            for g in P:
                y = g(*q)
                if not 0 <= y <= 0xffff:
                    bad = (q, "byte %d" % y)
                tot += y << w
                w -= 8
            y = L(*q)
            if y & ((1 << d) - 1) or tot + (y >> d) != X or y >= 1 << 32:
                bad = (q, "%#x becomes %s and %#x" % (X, [
                    hex(g(*q)) for g in P], y))
            if P and (y >> d) >= 1 << (w + 8):
                bad = (q, "a bit stays behind in %#x" % y)
        ctx.ob(bad is None, key + ":bits:%d:%d" % (c, d),
               "with %d bits pending and a shift of %d: %s" % (
                   c, d, bad[1] if bad else ""), f.loc())
    except Opaque as e:
        ctx.violate(key + ":opaque", "the coder state depends on %s" % e,
                    f.loc())


def finish(ctx):
    """The final bits identify the last interval; carries propagate."""
    f = ctx.fn("WriterBase::done")
    P0, P1 = sym("P0"), sym("P1")
    for c in range(-9, 0):
        outs = ev(ctx, f, [sym("self")], {
            ("self", "cnt"): K(c), ("self", "s.low"): LOW,
            ("self", "rng"): R, ("self", "s.precarry"): arr((P0, P1))})
        key = "done:%d" % c
        if not ctx.ob(len(outs) == 1, key, "%d outcomes" % len(outs),
                      f.loc()):
            continue
        o = outs[0]
        out = o.ret
        if not ctx.ob(out.k == "agg" and out.a[0] == "array" and
                      len(out.a[4]) >= 2, key + ":out", "returns %s" %
                      show(out)[:60], f.loc()):
            continue
        try:
            fs = [compile_(x, [P0, P1, LOW]) for x in out.a[4]]
        except Opaque as e:
            ctx.violate(key + ":opaque", "the output depends on %s" % e,
                        f.loc())
            continue
        n = len(fs)
        np_ = n - 2
        bad = None
        ups = [0, 1, (1 << max(0, 10 + c)) - 1, 1 << max(0, 9 + c)]
        lows = list(range(0, 1 << 16, 61)) + [
            (1 << i) + j for i in range(16) for j in (-1, 0, 1)]
        for up in ups:
            for x in lows:
                l = (up << 15) + x
                if not 0 <= l < (1 << (26 + c)) - 32768:
                    continue
                b = [g(0, 0, l) for g in fs]
                tot = 0
                for y in b:
                    tot = tot << 8 | y
                # weight of the last byte put out
                w = c + 16 - 8 * (np_ - 1)
                E = tot << w if w >= 0 else tot >> -w
                if not np_:
                    E = None
                if E is None or not l <= E < l + 32768 or \
                        E & (E - 1) & 0x7fff & ((1 << 15) - 1) and \
                        (E & -E) != 1 << 14 or (E & -E) != 1 << 14:
                    bad = (l, E)
                    break
            if bad:
                break
        ctx.ob(bad is None, key + ":value", "low %s ends as %s" % (
            bad if bad else (0, 0)), f.loc())
        bad = None
        vals = (0, 1, 127, 255, 256, 257, 510, 511)
        base = {}
        for l in (0, (1 << (25 + c)) - 1, 1 << (24 + c), 12345 % (
                1 << (25 + c))):
            z = 0
            for g in fs:
                z = z << 8 | g(0, 0, l)
            for a in vals:
                for b in vals:
                    want = (z + (a << 8 * (n - 1)) + (b << 8 * (n - 2))) % (
                        1 << 8 * n)
                    got = 0
                    for g in fs:
                        y = g(a, b, l)
                        if not 0 <= y <= 255:
                            bad = (a, b, l, y)
                        got = got << 8 | y
                    if got != want:
                        bad = (a, b, l, got)
        ctx.ob(bad is None, key + ":carry", "carries of %s are not "
               "propagated: %s" % (bad[:2] if bad else "", bad), f.loc())


def replay(ctx):
    f = ctx.fn("WriterBase::replay")
    toks = [agg("tuple", None, None, (".0", ".1", ".2"),
                tuple(sym("t%d%s" % (i, x)) for x in "abc"))
            for i in range(3)]
    got = []

    def call(a, st, n, rn, rec, args, site, line):
        if n.endswith("store"):
            st.auto = (st.auto or ()) + (tuple(args[1:]),)
            return [(st, UNIT)]
    outs = ev(ctx, f, [sym("self"), sym("dest")], {
        ("self", "s.storage"): arr(toks), ("self", "rng"): R,
        ("self", "cnt"): sym("cnt"), ("self", "s.bits"): sym("bits")}, call)
    ctx.ob(bool(outs), "replay", "never returns", f.loc())
    g = ctx.fn("WriterRecorder::new")
    new = ev(ctx, g, [])[0].ret
    nf = fields(new)
    ns = fields(nf[".s"])
    for o in outs:
        ctx.ob((o.st.auto or ()) == tuple(t.a[4] for t in toks),
               "replay:tokens", "replays %s" % (
                   [tuple(map(show, t)) for t in (o.st.auto or ())],),
               f.loc())
        s = fields(o.st.load((("X", sym("self")), ())))
        inner = fields(s.get(".s", UNIT))
        for nm, got, want in ((".rng", s, nf), (".cnt", s, nf),
                              (".bits", inner, ns), (".storage", inner, ns)):
            x, y = got.get(nm), want.get(nm)
            ctx.ob(x is y and y is not None, "replay:reset:" + nm,
                   "after replaying, %s is %s instead of %s" % (
                       nm[1:], show(x or UNIT)[:40], show(y or UNIT)[:40]),
                   f.loc())
    init = {".rng": K(0x8000), ".cnt": K(-9)}
    for b in ("WriterEncoder", "WriterRecorder", "WriterCounter"):
        g = ctx.fn(b + "::new")
        for o in ev(ctx, g, []):
            v = fields(o.ret)
            for k, w in init.items():
                ctx.ob(v.get(k) is w, "new:%s:%s" % (b, k), "a new coder "
                       "starts with %s %s" % (k[1:], show(v.get(k, UNIT))),
                       g.loc())
            if b == "WriterEncoder":
                i = fields(v.get(".s", UNIT))
                ctx.ob(i.get(".low") is K(0), "new:%s:low" % b, "a new coder "
                       "starts at %s" % show(i.get(".low", UNIT)), g.loc())


def stores(ctx, f, args, store=None, extra=None):
    def call(a, st, n, rn, rec, ar, site, line):
        if n.endswith(ST):
            st.auto = (st.auto or ()) + (tuple(ar[1:]),)
            return [(st, UNIT)]
        if last(n) == "leading_zeros" and isk(ar[0]):
            w = {"u8": 8, "u16": 16, "u32": 32, "u64": 64}.get(
                rn.rsplit("::", 2)[-2].strip("<>"), 32)
            return [(st, K(w - ar[0].a[0].bit_length()))]
        if extra:
            return extra(a, st, n, rn, rec, ar, site, line)
    return ev(ctx, f, args, store, call)


def symbols(ctx):
    """A symbol is coded with its own slice of the distribution."""
    f = W(ctx, "symbol")
    for n in range(2, 17):
        cs = [sym("c%d" % i) for i in range(n)]
        for s in range(n):
            outs = stores(ctx, f, [sym("self"), K(s), sym("cdf")],
                          {"cdf": arr(cs)})
            key = "symbol:%d:%d" % (n, s)
            ctx.ob(bool(outs), key, "never returns", f.loc())
            for o in outs:
                want = ((cs[s - 1] if s else K(32768), cs[s], K(n - s)),)
                ctx.ob(o.st.auto == want, key, "symbol %d of %d is coded "
                       "with %s" % (s, n, [tuple(map(show, t)) for t in (
                           o.st.auto or ())]), f.loc())
    f = W(ctx, "bool")
    for val in (0, 1):
        for o in stores(ctx, f, [sym("self"), K(val), sym("f")]):
            want = ((sym("f"), K(0), K(1)),) if val else \
                ((K(32768), sym("f"), K(2)),)
            ctx.ob(o.st.auto == want, "bool:%d" % val, "bool %d is coded with"
                   " %s" % (val, [tuple(map(show, t)) for t in (
                       o.st.auto or ())]), f.loc())
    f = W(ctx, "literal")
    for bits in (0, 1, 2, 5, 8):
        for v in {0, 1, (1 << bits) - 1, 0x55 & ((1 << bits) - 1),
                  0xB6 & ((1 << bits) - 1)}:
            outs = stores(ctx, f, [sym("self"), K(bits), K(v)])
            ctx.ob(bool(outs), "literal", "never returns", f.loc())
            for o in outs:
                b = bits_of(o.st.auto or ())
                want = [v >> i & 1 for i in range(bits - 1, -1, -1)] \
                    if bits else []
                ctx.ob(b == want, "literal:%d" % bits, "%d in %d bits is "
                       "coded as %s" % (v, bits, b), f.loc())
    # code with the distribution before it adapts, after saving it
    f = W(ctx, "symbol_with_update")

    def call(a, st, n, rn, rec, args, site, line):
        l = last(n)
        e = None
        if l == "push" and len(args) == 3:
            e = ("save", show(a.value_of(st, args[2]))[:20])
            st.auto = (st.auto or ()) + (e,)
            return [(st, sym("CDF"))]
        if l == "symbol":
            e = ("code", show(args[1]), ref_name(args[2]))
        if l == "update_cdf":
            e = ("adapt", show(args[1]), ref_name(args[0]))
        if e:
            st.auto = (st.auto or ()) + (e,)
            return [(st, UNIT)]
    outs = ev(ctx, f, [sym("self"), sym("s"), sym("OFF"), sym("log"),
                       sym("fc")], {}, call)
    ctx.ob(bool(outs), "update-order", "never returns", f.loc())
    for o in outs:
        want = (("save", "OFF"), ("code", "s", "CDF"), ("adapt", "s", "CDF"))
        ctx.ob((o.st.auto or ()) == want, "update-order", "a symbol is coded "
               "by %s" % (o.st.auto,), f.loc())


def ref_name(v):
    if v.k == "ref" and not v.a[1] and v.a[0][0] == "X":
        return show(v.a[0][1])
    return show(v)


def bits_of(evs):
    out = []
    for fl, fh, nms in evs:
        if (fl, fh, nms) == (K(16384), K(0), K(1)):
            out.append(1)
        elif (fl, fh, nms) == (K(32768), K(16384), K(2)):
            out.append(0)
        else:
            out.append(None)
    return out


# ------------------------------------------------------------ adaptation
def simd(a, st, n, rn, rec, args, site, line):
    l = last(rn)
    if not l.startswith("_mm_"):
        return None

    def lanes(v):
        assert v.k == "agg" and v.a[1] == "m128", show(v)
        return list(v.a[4])

    def pack(vs):
        return agg("array", "m128", None, (), tuple(vs))

    def i16(v):
        if isk(v):
            return K((v.a[0] + 32768) % 65536 - 32768)
        return mk("cast", "i16", v)

    def u16(v):
        if isk(v):
            return K(v.a[0] % 65536)
        return mk("cast", "u16", v)
    if l == "_mm_set1_epi16":
        return [(st, pack([i16(args[0])] * 8))]
    if l == "_mm_set_epi16":
        return [(st, pack([i16(x) for x in reversed(args)]))]
    if l == "_mm_set_epi32":
        vs = []
        for x in reversed(args):
            vs += [i16(x), K(0) if isk(x) and 0 <= x.a[0] < 32768 else
                   mk("call", "hi16", (x,))]
        return [(st, pack(vs))]
    if l == "_mm_setzero_si128":
        return [(st, pack([K(0)] * 8))]
    if l == "_mm_loadl_epi64":
        r = ref_of(args[0])
        return [(st, pack([i16(st.load((r.a[0], _ae.index(r.a[1], K(i)))))
                           for i in range(4)] + [K(0)] * 4))]
    if l == "_mm_storel_epi64":
        r = ref_of(args[0])
        for i, x in enumerate(lanes(args[1])[:4]):
            st.put((r.a[0], _ae.index(r.a[1], K(i))), u16(x))
        return [(st, UNIT)]
    x = lanes(args[0])
    y = lanes(args[1]) if len(args) > 1 else None
    if l == "_mm_cmplt_epi16":
        return [(st, pack([K(-1 if p.a[0] < q.a[0] else 0) if isk(p) and
                           isk(q) else mk("call", "cmplt", (p, q))
                           for p, q in zip(x, y)]))]
    if l == "_mm_cmpgt_epi16":
        return [(st, pack([K(-1 if p.a[0] > q.a[0] else 0) if isk(p) and
                           isk(q) else mk("call", "cmpgt", (p, q))
                           for p, q in zip(x, y)]))]
    if l == "_mm_avg_epu16":
        return [(st, pack([i16(op("Shr", op("Add", op(
            "Add", u16(p), u16(q)), K(1)), K(1))) for p, q in zip(x, y)]))]
    if l == "_mm_sub_epi16":
        return [(st, pack([i16(op("Sub", p, q)) for p, q in zip(x, y)]))]
    if l == "_mm_add_epi16":
        return [(st, pack([i16(op("Add", p, q)) for p, q in zip(x, y)]))]
    if l == "_mm_sra_epi16":
        s = y[0]
        return [(st, pack([i16(op("Shr", p, s)) for p in x]))]
    return None


def adapt(ctx):
    sw = W(ctx, "symbol_with_update")
    upd = None
    for _, rec, *_ in sw.calls():
        if rec and last(rec["p"]) == "update_cdf":
            for k in ctx.lib.callees(rec):
                upd = ctx.lib.fns[k]
    if not ctx.ob(upd is not None, "adapt", "symbols do not adapt their "
                  "distribution", sw.loc()):
        return
    done = {}
    fns = [upd]
    for g in ctx.lib.fns.values():
        if g.nname.endswith("rust::update_cdf") and g is not upd:
            fns.append(g)
    for f in fns:
        for n in range(2, 17):
            for cnt in (0, 1, 15, 16, 31, 32):
                for s in range(n):
                    adapt1(ctx, f, n, cnt, s, done)
    ctx.count("adaptation_terms", len(done))


def adapt1(ctx, f, n, cnt, s, done):
    cs = [sym("c%d" % i) for i in range(n - 1)]
    key = "adapt:%d:%d:%d" % (n, cnt, s)
    outs = ev(ctx, f, [sym("cdf"), K(s)], {"cdf": arr(cs + [K(cnt)])}, simd)
    if not ctx.ob(len(outs) == 1, key, "%d outcomes" % len(outs), f.loc()):
        return
    st = outs[0].st
    rate = 3 + (cnt > 15) + (cnt > 31) + min(n.bit_length() - 1, 2)
    ld = lambda i: st.load((("X", sym("cdf")), (("i", K(i)),)))
    w = K(cnt + 1 if cnt < 32 else 32)
    ctx.ob(ld(n - 1) is w, key + ":count", "the count of a %d-symbol "
           "distribution goes from %d to %s" % (n, cnt, show(ld(n - 1))),
           f.loc())
    for i in range(n - 1):
        t = ld(i)
        k = (subst_atom(t, cs[i]), i < s, rate)
        if k not in done:
            done[k] = check_adapt(t, cs[i], i < s, rate)
        m = done[k]
        ctx.ob(not m, key + ":prob", "coding symbol %d of %d (count %d): "
               "entry %d %s" % (s, n, cnt, i, m), f.loc())


def subst_atom(t, a):
    return show(t).replace(show(a), "@")


def check_adapt(t, a, below, rate):
    try:
        g = compile_(t, [a])
    except Opaque as e:
        return "depends on %s" % e
    for x in range(1, 32768):
        w = x + ((32768 - x) >> rate) if below else x - (x >> rate)
        if g(x) != w:
            return "goes from %d to %d instead of %d" % (x, g(x), w)
    return ""


# ------------------------------------------------------------ codes
class Bits:
    def __init__(self, b):
        self.b, self.i = b, 0

    def bit(self):
        x = self.b[self.i]
        self.i += 1
        return x

    def lit(self, n):
        x = 0
        for _ in range(n):
            x = x << 1 | self.bit()
        return x


def rd_golomb(b):
    n = 0
    while not b.bit():
        n += 1
    x = 1
    for _ in range(n):
        x = x << 1 | b.bit()
    return x - 1


def rd_ns(b, n):
    w = n.bit_length()
    m = (1 << w) - n
    v = b.lit(w - 1)
    if v < m:
        return v
    return (v << 1) - m + b.bit()


def rd_subexp(b, n, k):
    i = mk_ = 0
    while 1:
        b2 = k + i - 1 if i else k
        a = 1 << b2
        if n <= mk_ + 3 * a:
            return rd_ns(b, n - mk_) + mk_ if n - mk_ > 1 else mk_
        if b.bit():
            i += 1
            mk_ += a
        else:
            return b.lit(b2) + mk_


def inv_recenter(r, v):
    if v > 2 * r:
        return v
    return r - ((v + 1) >> 1) if v & 1 else r + (v >> 1)


def rd_uref(b, mx, k, r):
    v = rd_subexp(b, mx, k)
    if r << 1 <= mx:
        return inv_recenter(r, v)
    return mx - 1 - inv_recenter(mx - 1 - r, v)


def code(ctx, name, args, read, want, key):
    f = W(ctx, name)
    outs = stores(ctx, f, [sym("self")] + [K(x) for x in args])
    if not ctx.ob(len(outs) == 1, key, "%s%s: %d outcomes" % (
            name, tuple(args), len(outs)), f.loc()):
        return
    b = bits_of(outs[0].st.auto or ())
    got = None
    if None not in b:
        rd = Bits(b)
        try:
            got = read(rd)
        except IndexError:
            got = "too few bits"
        if got == want and rd.i != len(b):
            got = "%s with %d bits to spare" % (got, len(b) - rd.i)
    ctx.ob(got == want, key, "%s%s writes %s, read back as %s" % (
        name, tuple(args), b, got), f.loc())


def codes(ctx):
    for v in list(range(0, 70)) + [126, 127, 128, 254, 255, 1000, 4095, 4096,
                                   65534, 1 << 19, (1 << 20) - 2]:
        code(ctx, "write_golomb", [v], rd_golomb, v, "golomb")
    for n in (2, 3, 4, 5, 7, 8, 9, 13, 16, 31, 33, 64, 100, 128):
        for v in {0, 1, n // 2, n - 2, n - 1, (1 << n.bit_length()) - n - 1,
                  (1 << n.bit_length()) - n} & set(range(n)):
            code(ctx, "write_quniform", [n, v], lambda b: rd_ns(b, n), v,
                 "quniform")
    # filter coefficients: (min, max, k)
    for lo, hi, k in ((-5, 10, 1), (-23, 8, 2), (-17, 46, 3), (-96, 31, 4),
                      (-32, 95, 4), (0, 12, 1), (-7, 22, 2), (0, 39, 3)):
        for r in {lo, hi, (lo + hi) // 2, (lo + hi) // 2 + 1, lo + 1,
                  (2 * lo + hi) // 3}:
            for v in list(range(lo, hi + 1, 3)) + [hi, r]:
                code(ctx, "write_signed_subexp_with_ref",
                     [v, lo, hi + 1, k, r],
                     lambda b: rd_uref(b, hi + 1 - lo, k, r - lo) + lo, v,
                     "subexp:%d:%d" % (lo, hi))
    header_codes(ctx)


def B(ctx, m):
    for f in ctx.lib.fns.values():
        if f.nname.endswith("as ec::BCodeWriter>::" + m):
            return f
    raise KeyError("no BCodeWriter::" + m)


def header_codes(ctx):
    """The same codes in the uncompressed header (BitWriter)."""
    def call(a, st, n, rn, rec, ar, site, line):
        e = bitio_event(a, st, n, rec, ar)
        if e:
            if e[0] == "F" and isk(e[1]) and isk(e[2]):
                w, v = e[1].a[0], int(e[2].a[0])
                b = tuple(v >> i & 1 for i in range(w - 1, -1, -1)) \
                    if not v >> w else (None,)
            else:
                b = (None,)
            st.auto = (st.auto or ()) + b
            return [(st, ok(UNIT))]
        if last(n) == "leading_zeros" and isk(ar[0]):
            w = {"u8": 8, "u16": 16, "u32": 32, "u64": 64}.get(
                rn.rsplit("::", 2)[-2].strip("<>"), 32)
            return [(st, K(w - ar[0].a[0].bit_length()))]

    def one(name, args, read, want, key):
        f = B(ctx, name)
        outs = [o for o in ev(ctx, f, [sym("self")] + [K(x) for x in args],
                              None, call)]
        b = list(outs[0].st.auto or ()) if len(outs) == 1 else [None]
        got = None
        if None not in b:
            rd = Bits(b)
            try:
                got = read(rd)
            except IndexError:
                got = "too few bits"
            if got == want and rd.i != len(b):
                got = "%s with %d bits to spare" % (got, len(b) - rd.i)
        ctx.ob(got == want, key, "%s%s writes %s, read back as %s" % (
            name, tuple(args), b, got), f.loc())
    for n in (2, 3, 4, 5, 7, 8, 9, 13, 16, 31, 33, 64):
        for v in {0, 1, n // 2, n - 2, n - 1, (1 << n.bit_length()) - n - 1,
                  (1 << n.bit_length()) - n} & set(range(n)):
            one("write_quniform", [n, v], lambda b: rd_ns(b, n), v,
                "header:quniform")
    for n in ((1 << 9) + 1, (1 << 8) + 1, 33, 18):
        for r in (0, 5, -(n - 1), n - 1, 1 - n // 2):
            for v in {0, 1, -1, r, n - 1, 1 - n, r // 2, n // 2, n // 3}:
                one("write_s_refsubexpfin", [n, 3, r, v],
                    lambda b: rd_uref(b, 2 * n - 1, 3, r + n - 1) + 1 - n, v,
                    "header:subexp")

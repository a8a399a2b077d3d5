"""C19: trial coding leaves no trace."""
from sa.val import *
from sa.gate import *
from sa.prog import norm
from sa import ae as _ae
from sa.query import field_writes, field_borrows
from checks.c18 import last, arr, ref_of, F, fields, common

RULE = """(1) Layout: the memory a logged distribution's restore window covers
contains no distribution of the other log, for every distribution of the
context type as laid out by the compiler.  (2) Push and rollback of the log,
of the block contexts and of the writers are interpreted on a flat symbolic
memory; a rollback must reproduce every saved word, newest first, and nothing
else.  (3) Coder and context state is written only by functions whose effect a
rollback undoes (effect query).  (4) Interprocedural dirty/clean analysis of
every function that can code: one without a caller's writer leaves clean
contexts.  (5) Typestate of the partition searches: contexts and both writers
are rolled back together, and what is left coded is the partition reported."""
ASSUME = ["restore windows of sub-blocks stay inside their superblock",
          "reconstruction and block info overwritten by the final coding"]

CD = "context::cdf_context::"
BU = "context::block_unit::"


def run(ctx):
    layout(ctx)
    partition_log(ctx)
    log(ctx)
    contexts(ctx)
    writers(ctx)
    effects(ctx)
    dirtyflow(ctx)
    searches(ctx)


# ------------------------------------------------------------ layout
def leaves(c, tid, off, path):
    """(byte offset, length in u16, path) of every innermost u16 array."""
    t = c.types[tid]
    if t["k"] == "array":
        e = c.types[t["e"]]
        if e["s"] == "u16":
            yield off, t["n"], path
            return
        sz = size(c, t["e"])
        for i in range(t["n"]):
            yield from leaves(c, t["e"], off + i * sz, "%s[%d]" % (path, i))
    elif t["k"] == "adt":
        a = c.adts[t["p"]]
        for (o, ft), f in zip(a["layout"][1:], a["variants"][0][2]):
            yield from leaves(c, ft, off + o, path + "." + f[0])
    else:
        yield off, 0, path


def size(c, tid):
    t = c.types[tid]
    if t["k"] == "array":
        return t["n"] * size(c, t["e"])
    if t["k"] == "adt":
        return c.adts[t["p"]]["layout"][0]
    return {"u8": 1, "u16": 2, "u32": 4, "u64": 8}[t["s"]]


def windows(ctx):
    """{log field: words saved per entry}"""
    c = ctx.lib
    a = c.adts[CD + "CDFContextLog"]
    out = {}
    for (o, ft), f in zip(a["layout"][1:], a["variants"][0][2]):
        t = c.types[ft]
        n = [x for x in t.get("a", ()) if isinstance(x, dict) and "n" in x]
        if n:
            out[f[0]] = int(n[0]["n"])
    return out


def layout(ctx):
    c = ctx.lib
    a = c.adts[CD + "CDFContext"]
    w = windows(ctx)
    ctx.windows = w
    if not ctx.ob(len(w) == 2, "layout:logs", "the log has parts %s" % w, ""):
        return
    big, small = max(w.values()) - 1, min(w.values()) - 1
    total = a["layout"][0]
    ctx.ob(total <= 0xFFFF, "layout:offset", "the context takes %d bytes; an "
           "offset into it does not fit the log's 16 bits" % total, "")
    where = "%s:%s" % (a["file"], a["line"])
    ls = []
    for (o, ft), f in zip(a["layout"][1:], a["variants"][0][2]):
        ls += leaves(c, ft, o, f[0])
    # padding is never coded
    pad = [x for x in ls if "padding" in x[2]]
    ls = [x for x in ls if x not in pad]
    owner = {}
    for o, n, p in ls:
        for i in range(n):
            owner[o // 2 + i] = (n, p)
    for o, n, p in ls:
        ctx.ob(2 <= n <= big and o % 2 == 0, "layout:%s" % p.split("[")[0],
               "%s has %d entries" % (p, n), where)
        win = small if n <= small else big
        ctx.ob(o + 2 * win <= total, "layout:%s" % p.split("[")[0],
               "restoring %s writes past the end of the context" % p, where)
        if n > small:
            hit = sorted({owner[o // 2 + i][1] for i in range(n, win)
                          if o // 2 + i in owner
                          and owner[o // 2 + i][0] <= small})
            ctx.ob(not hit, "layout:%s" % p.split("[")[0], "restoring %s also "
                   "overwrites %s, which is restored from the other log" % (
                       p, ", ".join(hit[:3])), where)
    ctx.count("distributions", len(ls))


# ------------------------------------------------------------ flat memory
def stride(a, rec, cp):
    """u16 words per element of the pointer's type."""
    c = a.c
    t = rec["a"][0] if rec and rec.get("a") else None
    if t is None:
        return None
    t = c.types[t]
    if t["s"] == "u8":
        return 0.5
    if t["s"] == "u16":
        return 1
    if t["k"] == "array":
        return cp["CDF_LEN_MAX_PLUS_1"]
    return None


class Mem(Exception):
    pass


def memhook(cp):
    def move(st, p, words):
        p = ref_of(p)
        path = p.a[1]
        i = 0
        if path and type(path[-1]) is tuple and path[-1][0] == "i":
            if not isk(path[-1][1]):
                return None
            i, path = path[-1][1].a[0], path[:-1]
        return mk("ref", p.a[0], path + (("i", K(int(i + words))),), 1)

    def hook(a, st, n, rn, rec, args, site, line):
        l = last(n)
        vec = "Vec" in n
        ln, cap = st.auto
        if vec and l == "len":
            return [(st, K(ln))]
        if vec and l == "capacity":
            return [(st, K(cap))]
        if vec and l in ("as_mut_ptr", "as_ptr"):
            return [(st, mk("ref", ("X", sym("DATA")), (("i", K(0)),), 1))]
        if vec and l in ("set_len", "truncate") and isk(args[1]):
            n_ = args[1].a[0]
            st.auto = (n_ if l == "set_len" else min(n_, ln), cap)
            return [(st, UNIT)]
        if vec and l == "clear":
            st.auto = (0, cap)
            return [(st, UNIT)]
        if vec and l == "reserve" and isk(args[1]):
            st.auto = (ln, max(cap, ln + args[1].a[0]))
            return [(st, UNIT)]
        if l in ("add", "sub", "offset", "byte_add", "wrapping_add") and \
                "*" in n and isk(args[1]):
            s = 0.5 if l == "byte_add" else stride(a, rec, cp)
            if s is not None:
                k = args[1].a[0] * s * (-1 if l == "sub" else 1)
                r = move(st, args[0], k)
                if r is not None:
                    return [(st, r)]
        if l in ("copy_from_nonoverlapping", "copy_from",
                 "copy_nonoverlapping", "copy", "copy_to_nonoverlapping") and \
                isk(args[2]):
            d, s = args[0], args[1]
            if l in ("copy_nonoverlapping", "copy", "copy_to_nonoverlapping"):
                d, s = s, d
            k = args[2].a[0] * int(stride(a, rec, cp) or 1)
            vals = []
            for i in range(k):
                r = move(st, s, i)
                vals.append(st.load((r.a[0], r.a[1])))
            for i, v in enumerate(vals):
                r = move(st, d, i)
                if r.a[0] == ("X", sym("DATA")) and \
                        r.a[1][-1][1].a[0] >= cp["CDF_LEN_MAX_PLUS_1"] * cap:
                    st.put((("X", sym("OVER")), ()), K(1))
                st.put((r.a[0], r.a[1]), v)
            return [(st, UNIT)]
        return None
    return hook


def flat(ctx, f, args, cp, mem, auto):
    pol = CellPolicy(None, None, memhook(cp))
    pol.cparam = cp
    pol.max_steps = 100000
    pol.count_unroll = 64
    a = _ae.AE(ctx.lib, pol)
    st = a.start(f, args, auto=auto)
    for k, v in mem.items():
        st.store[("X", sym(k))] = v
    outs = [o for o in a.run(st) if o.kind == "ret"]
    ctx.saw(*a.fns_seen)
    ctx.count("abstract_steps", a.steps)
    return outs


NF = 48     # words of context modelled


def words(st, base, n):
    return [st.load((("X", sym(base)), (("i", K(i)),))) for i in range(n)]


def fnamed(ctx, n):
    for f in ctx.lib.fns.values():
        if f.nname == n:
            return f
    raise KeyError(n)


def partition_log(ctx):
    push = fnamed(ctx, CD + "CDFContextLogPartition::push")
    back = fnamed(ctx, CD + "CDFContextLogPartition::rollback")
    for w in sorted(set(ctx.windows.values())):
        lens = (2, 3, 4) if w == 5 else (5, 11, 16)
        for cap0 in (2, 64):
            sequence(ctx, push, back, w, lens, cap0)
        for cap in (1, 4, w, 40):
            for n in range(max(0, cap - w - 2), cap):
                room(ctx, push, w, n, cap)


def room(ctx, push, w, n, cap):
    """One push onto a log of n entries with room for cap."""
    key = "log:%d:capacity" % w
    outs = flat(ctx, push, [
        sym("self"), sym("fc"), agg("adt", CD + "CDFOffset", None, (
            ".offset", ".phantom"), (K(8), UNIT))],
        {"CDF_LEN_MAX_PLUS_1": w, "CDF_LEN": w - 1},
        {"fc": arr([sym("f%d" % i) for i in range(NF)]),
         "DATA": arr([sym("j%d" % i) for i in range(w * 80)]),
         "OVER": K(0)}, (n, cap))
    if not ctx.ob(len(outs) == 1, key, "%d outcomes" % len(outs), push.loc()):
        return
    o = outs[0]
    ctx.ob(o.st.load((("X", sym("OVER")), ())) is K(0), key,
           "entry %d is written past the log's capacity of %d" % (n, cap),
           push.loc())
    ctx.ob(o.st.auto[1] > o.st.auto[0], key, "a push onto %d of %d entries "
           "leaves no room for the next" % (n, cap), push.loc())


def sequence(ctx, push, back, w, lens, cap0):
    key = "log:%d" % w
    offs = [4, 4 + lens[0], 4, 10]
    fc = arr([sym("f%d" % i) for i in range(NF)])
    cap = max(cap0, 1)
    data = arr([sym("j%d" % i) for i in range(w * 80)])
    auto = (0, cap)
    snaps = []
    over = K(0)
    for k, off in enumerate(offs):
        cp = {"CDF_LEN_MAX_PLUS_1": w, "CDF_LEN": lens[k % 3]}
        snaps.append([fc.a[4][i] for i in range(NF)])
        outs = flat(ctx, push, [
            sym("self"), sym("fc"), agg("adt", CD + "CDFOffset", None, (
                ".offset", ".phantom"), (K(2 * off), UNIT))], cp,
            {"fc": fc, "DATA": data, "OVER": K(0)}, auto)
        if not ctx.ob(len(outs) == 1, key + ":push", "%d outcomes" % len(outs),
                      push.loc()):
            return
        o = outs[0]
        ctx.ob(o.st.load((("X", sym("OVER")), ())) is K(0), key + ":capacity",
               "entry %d is written past the log's capacity of %d" % (
                   k, auto[1]), push.loc())
        ctx.ob(o.st.auto[0] == k + 1, key + ":push", "after %d pushes the log "
               "has %d entries" % (k + 1, o.st.auto[0]), push.loc())
        ctx.ob(o.st.auto[1] > o.st.auto[0], key + ":capacity", "a push leaves "
               "no room for the next (%d of %d)" % o.st.auto, push.loc())
        r = o.ret
        ctx.ob(r.k == "ref" and r.a[0] == ("X", sym("fc")) and r.a[1] == (
            ("i", K(off)),), key + ":target", "a distribution at word %d is "
            "coded at %s" % (off, show(r)), push.loc())
        ctx.ob(words(o.st, "fc", NF) == snaps[-1], key + ":push", "a push "
               "changes the context", push.loc())
        data = arr(words(o.st, "DATA", w * 80))
        auto = o.st.auto
        f2 = list(snaps[-1])
        for i in range(cp["CDF_LEN"]):
            f2[off + i] = sym("m%d_%d" % (k, i))
        fc = arr(f2)
    snaps.append(list(fc.a[4]))
    cp = {"CDF_LEN_MAX_PLUS_1": w}
    for n in range(len(offs) + 1):
        outs = flat(ctx, back, [sym("self"), sym("fc"), K(n)], cp,
                    {"fc": fc, "DATA": data, "OVER": K(0)}, auto)
        if not ctx.ob(len(outs) == 1, key + ":rollback", "%d outcomes" % len(
                outs), back.loc()):
            return
        o = outs[0]
        got = words(o.st, "fc", NF)
        bad = [i for i in range(NF) if got[i] is not snaps[n][i]]
        ctx.ob(not bad, key + ":rollback", "rolling back %d of %d entries "
               "leaves word %s as %s instead of %s" % (
                   len(offs) - n, len(offs), bad[:1], show(got[bad[0]]) if bad
                   else "", show(snaps[n][bad[0]]) if bad else ""), back.loc())
        ctx.ob(o.st.auto[0] == n, key + ":rollback", "rolling back to %d "
               "entries leaves %d" % (n, o.st.auto[0]), back.loc())


# ------------------------------------------------------------ the log
def simple(ctx, f, args, call, store=None, facts=None, auto=None):
    pol = CellPolicy(None, None, call)
    pol.count_unroll = 64
    a = _ae.AE(ctx.lib, pol)
    st = a.start(f, args, auto=auto)
    for k, v in (store or {}).items():
        if isinstance(k, str):
            st.store[("X", sym(k))] = v
        else:
            st.put((("X", sym(k[0])), elems(k[1])), v)
    for k, v in (facts or {}).items():
        st.facts[k] = v
    outs = [o for o in a.run(st) if o.kind == "ret"]
    ctx.saw(*a.fns_seen)
    return outs


def part_of(v):
    """Which part of the log a reference names."""
    if v.k == "ref" and v.a[1]:
        return str(v.a[1][-1]).lstrip(".")
    return show(v)


def log(ctx):
    L = CD + "CDFContextLog::"
    w = ctx.windows
    small = min(w, key=w.get)
    large = max(w, key=w.get)
    push = fnamed(ctx, L + "push")

    def call(a, st, n, rn, rec, args, site, line):
        if last(n) == "push" and "Partition" in n:
            st.auto = (st.auto or ()) + ((part_of(args[0]), show(
                a.value_of(st, args[1])), show(a.value_of(st, args[2]))),)
            return [(st, sym("CDF"))]
        if last(n) == "rollback" and "Partition" in n:
            st.auto = (st.auto or ()) + ((part_of(args[0]), show(
                a.value_of(st, args[1])), show(args[2])),)
            return [(st, UNIT)]
        if last(n) in ("clear", "len", "truncate") and "Vec" in n:
            p = [str(x) for x in ref_of(args[0]).a[1]]
            if last(n) == "len":
                return [(st, sym("len" + "".join(p)))]
            st.auto = (st.auto or ()) + ((last(n), "".join(p)),)
            return [(st, UNIT)]
        return None
    for n in range(2, 17):
        pol = CellPolicy(None, None, call)
        pol.cparam = {"CDF_LEN": n}
        a = _ae.AE(ctx.lib, pol)
        outs = [o for o in a.run(a.start(push, [
            sym("self"), sym("fc"), sym("cdf")])) if o.kind == "ret"]
        ctx.saw(*a.fns_seen)
        fit = [p for p in w if n <= w[p] - 1]
        want = small if small in fit else large
        ok_ = outs and all(o.st.auto == ((want, "fc", "cdf"),) and
                           show(o.ret).lstrip("&") == "CDF" for o in outs)
        ctx.ob(bool(ok_), "push:%d" % n, "a distribution of %d entries is "
               "logged as %s" % (n, [o.st.auto for o in outs]), push.loc())
    cpf = fnamed(ctx, L + "checkpoint")
    outs = simple(ctx, cpf, [sym("self")], call)
    for o in outs:
        d = fields(o.ret)
        for p in w:
            ctx.ob(d.get("." + p) is sym("len.%s.data" % p), "log:checkpoint",
                   "the checkpoint's %s count is %s" % (p, show(d.get(
                       "." + p, UNIT))), cpf.loc())
    ctx.ob(bool(outs), "log:checkpoint", "never returns", cpf.loc())
    rb = fnamed(ctx, L + "rollback")
    outs = simple(ctx, rb, [sym("self"), sym("fc"), sym("cp")], call)
    for o in outs:
        want = ((small, "fc", "cp.%s" % small), (large, "fc", "cp.%s" % large))
        ctx.ob(o.st.auto == want, "log:rollback", "the log rolls back by %s" %
               (o.st.auto,), rb.loc())
    ctx.ob(bool(outs), "log:rollback", "never returns", rb.loc())
    cl = fnamed(ctx, L + "clear")
    outs = simple(ctx, cl, [sym("self")], call)
    for o in outs:
        ctx.ob({x[1].split(".")[1] for x in o.st.auto or ()} == set(w),
               "log:clear", "clearing the log clears %s" % (o.st.auto,),
               cl.loc())
    # a fresh log has room for the first entry of each part
    nw = fnamed(ctx, "<%sCDFContextLog as std::default::Default>::default" % CD)

    def caps(a, st, n, rn, rec, args, site, line):
        if last(n) == "with_capacity":
            return [(st, args[0])]
        return None
    for o in simple(ctx, nw, [], caps):
        d = fields(o.ret)
        for p in w:
            v = fields(d["." + p]).get(".data") if "." + p in d else None
            ctx.ob(v is not None and isk(v) and v.a[0] > 0, "log:new",
                   "a new log has capacity %s in its %s part" % (
                       show(v) if v is not None else "?", p), nw.loc())
    # the context writer saves and restores both parts, with its own context
    cw = fnamed(ctx, CD + "ContextWriter::checkpoint")

    def cwc(a, st, n, rn, rec, args, site, line):
        l = last(n)
        if l in ("checkpoint", "rollback") and ("CDFContextLog" in n or
                                                "BlockContext" in n):
            e = (l, "fc" if "CDFContextLog" in n else "bc") + tuple(
                show(a.value_of(st, x)) for x in args[1:])
            st.auto = (st.auto or ()) + (e,)
            return [(st, sym(e[1] + "_cp") if l == "checkpoint" else UNIT)]
        return None
    outs = simple(ctx, cw, [sym("self"), sym("bo"), sym("cs")], cwc)
    for o in outs:
        d = fields(o.ret)
        ctx.ob(d.get(".fc") is sym("fc_cp") and d.get(".bc") is sym("bc_cp")
               and ("checkpoint", "bc", "bo", "cs") in (o.st.auto or ()),
               "cw:checkpoint", "the writer's checkpoint is %s from %s" % (
                   show(o.ret), o.st.auto), cw.loc())
    ctx.ob(bool(outs), "cw:checkpoint", "never returns", cw.loc())
    cw = fnamed(ctx, CD + "ContextWriter::rollback")
    outs = simple(ctx, cw, [sym("self"), sym("cp")], cwc)
    for o in outs:
        ctx.ob(set(o.st.auto or ()) == {("rollback", "fc", "self.fc", "cp.fc"),
                                        ("rollback", "bc", "cp.bc")},
               "cw:rollback", "the writer rolls back %s" % (o.st.auto,),
               cw.loc())
    ctx.ob(bool(outs), "cw:rollback", "never returns", cw.loc())


# ------------------------------------------------------------ block contexts
SAVED = {"above_partition_context": 8, "left_partition_context": 8,
         "above_tx_context": 16, "left_tx_context": 16,
         "above_coeff_context": 16, "left_coeff_context": 16}


def slhook(a, st, n, rn, rec, args, site, line):
    if last(n) in ("copy_from_slice", "clone_from_slice"):
        d, s = ref_of(args[0]), ref_of(args[1])
        ln = a.length(st, s)
        if not isk(ln):
            ln = a.length(st, d)
        if isk(ln):
            vals = []
            for i in range(ln.a[0]):
                r = _ae.elemref(s, K(i))
                vals.append(st.load((r.a[0], r.a[1])))
            for i, v in enumerate(vals):
                r = _ae.elemref(d, K(i))
                st.put((r.a[0], r.a[1]), v)
            return [(st, UNIT)]
    return None


def contexts(ctx):
    save = fnamed(ctx, BU + "BlockContext::checkpoint")
    back = fnamed(ctx, BU + "BlockContext::rollback")
    c = ctx.lib
    CS = c.adt("ChromaSampling")
    bc = c.adt("BlockContext")
    names = [f[0] for f in bc["variants"][0][2]]
    for cs in [v[0] for v in CS["variants"]]:
        csv = agg("adt", CS["adt"], cs, (), ())
        for x in (0, 5, 16, 47, 240, 1008):
            key = "context:%s" % cs
            outs = simple(ctx, save, [sym("self"), sym("tb"), csv],
                          slhook, {("tb", "0.x"): K(x)})
            outs = [o for o in outs] or []
            if not ctx.ob(len(outs) == 1, key + ":save", "%d outcomes at block"
                          " %d" % (len(outs), x), save.loc()):
                continue
            cp = outs[0].ret
            outs = simple(ctx, back, [sym("later"), sym("cp")], slhook,
                          {"cp": cp})
            if not ctx.ob(len(outs) == 1, key + ":restore", "%d outcomes" % len(
                    outs), back.loc()):
                continue
            st = outs[0].st
            x0 = x & ~15
            dec = 0 if cs == "Cs444" else 1

            def chk(what, path, src):
                lv = (("X", sym("later")), path)
                sv = _ae.State.load
                v = st.load(lv)
                s0 = outs[0].st.load((("X", sym("self")), path))
                ctx.ob(v is s0, key + ":" + what, "after a rollback at block "
                       "%d %s is %s" % (x, src, show(v)[:80]), back.loc())
            for n in SAVED:
                ctx.ob(n in names, key, "no field %s" % n, save.loc())
            chk("cdef_coded", (".cdef_coded",), "cdef_coded")
            for n, w in (("left_partition_context", 8),
                         ("left_tx_context", 16)):
                for i in range(w):
                    chk(n, ("." + n, ("i", K(i))), "%s[%d]" % (n, i))
            planes = 1 if cs == "Cs400" else 3
            for p in range(planes):
                for i in range(16):
                    chk("left_coeff_context", (".left_coeff_context",
                                               ("i", K(p)), ("i", K(i))),
                        "left_coeff_context[%d][%d]" % (p, i))
                w = 16 >> (dec if p else 0)
                for i in range(w):
                    j = (x0 >> (dec if p else 0)) + i
                    chk("above_coeff_context", (".above_coeff_context",
                                                ("i", K(p)), ("i", K(j))),
                        "above_coeff_context[%d][%d]" % (p, j))
            for i in range(8):
                chk("above_partition_context", (
                    ".above_partition_context", ("i", K((x0 >> 1) + i))),
                    "above_partition_context[%d]" % ((x0 >> 1) + i))
            for i in range(16):
                chk("above_tx_context", (".above_tx_context", (
                    "i", K(x0 + i))), "above_tx_context[%d]" % (x0 + i))


# ------------------------------------------------------------ writers
BACK = {"WriterCounter": (("rng", "cnt", "s.bits"), ()),
        "WriterRecorder": (("rng", "cnt", "s.bits"), ("s.storage",)),
        "WriterEncoder": (("rng", "cnt", "s.low"), ("s.precarry",))}


def wload(st, root, p):
    return st.load((("X", sym(root)), elems(p)))


def writers(ctx):
    c = ctx.lib
    wb = c.adt("WriterBase")
    for b, (scal, vecs) in BACK.items():
        ad = c.adt(b)
        have = {"s." + f[0] for f in ad["variants"][0][2]} | {
            f[0] for f in wb["variants"][0][2]} - {"s", "fake_bits_frac",
                                                   "debug"}
        ctx.ob(have == set(scal) | set(vecs), "writer:%s:fields" % b, "state "
               "%s is not covered by the rule" % sorted(
                   have ^ (set(scal) | set(vecs))), "")
        items = [sym("e%d" % i) for i in range(3)]

        def state(root, pre, extra):
            d = {(root, p): sym(pre + p) for p in scal}
            for v in vecs:
                d[(root, v)] = arr(items + extra)
            return d
        # what coding a symbol can change
        sf = F(ctx, b, "store")
        from checks.c18 import ev
        dirty = set()
        outs = ev(ctx, sf, [sym("self"), sym("fl"), sym("fh"), sym("nms")],
                  state("self", "a.", []))
        ctx.ob(bool(outs), "writer:%s:store" % b, "never returns", sf.loc())
        for o in outs:
            for p in scal:
                if wload(o.st, "self", p) is not sym("a." + p):
                    dirty.add(p)
            for v in vecs:
                x = wload(o.st, "self", v)
                ok_ = x.k == "agg" and tuple(x.a[4][:3]) == tuple(items)
                ctx.ob(ok_, "writer:%s:append" % b, "coding a symbol changes "
                       "%s already stored: %s" % (v, show(x)[:80]), sf.loc())
        cf, rf = F(ctx, b, "checkpoint"), F(ctx, b, "rollback")
        outs = ev(ctx, cf, [sym("self")], state("self", "a.", []))
        if not ctx.ob(len(outs) == 1, "writer:%s:checkpoint" % b,
                      "%d outcomes" % len(outs), cf.loc()):
            continue
        st = outs[0].st
        for p in scal:
            ctx.ob(wload(st, "self", p) is sym("a." + p), "writer:%s:"
                   "checkpoint" % b, "taking a checkpoint changes %s" % p,
                   cf.loc())
        cp = outs[0].ret
        d = state("self", "b.", [sym("x0"), sym("x1")])
        for p in scal:
            if p not in dirty:
                d[("self", p)] = sym("a." + p)
        d["cp"] = cp
        outs = ev(ctx, rf, [sym("self"), sym("cp")], d)
        if not ctx.ob(len(outs) == 1, "writer:%s:rollback" % b,
                      "%d outcomes" % len(outs), rf.loc()):
            continue
        st = outs[0].st
        for p in scal:
            v = uncast(wload(st, "self", p), fwidth(c, b, p))
            ctx.ob(v is sym("a." + p), "writer:%s:rollback" % b, "after a "
                   "rollback %s is %s" % (p, show(v)), rf.loc())
        for v in vecs:
            x = wload(st, "self", v)
            ctx.ob(x.k == "agg" and x.a[4] == tuple(items), "writer:%s:"
                   "rollback" % b, "after a rollback %s is %s" % (v, show(x)),
                   rf.loc())
    # nothing else touches the coder's state
    okf = ("store", "rollback", "replay", "done", "new", "clone")
    for fld in ("rng", "cnt", "s"):
        for q in (field_writes, field_borrows):
            for f, line, _ in q(c, "WriterBase", fld):
                ctx.ob(last(f.nname) in okf or f.nname.startswith("ec::rust"),
                       "writer:effects", "%s changes %s outside the calls a "
                       "rollback undoes" % (f.nname, fld), f.loc(line))
    # delegation
    for m in ("checkpoint", "rollback"):
        f = fnamed(ctx, "<ec::WriterBase<S> as ec::Writer>::" + m)
        n = [last(rec["p"]) for _, rec, *_ in f.calls() if rec]
        ctx.ob(n == [m], "writer:%s" % m, "a writer's %s calls %s" % (m, n),
               f.loc())


def fwidth(c, b, p):
    """Bits of a coder field; p is a field of the base or of its storage."""
    ad = c.adt(b if p.startswith("s.") else "WriterBase")
    for n, t, *_ in ad["variants"][0][2]:
        if n == last_field(p):
            return twidth(c.types[t]["s"])
    return 64


def last_field(p):
    return p.split(".")[-1]


def twidth(t):
    return {"usize": 64, "isize": 64}.get(t) or (
        int(t[1:]) if t[:1] in "iu" and t[1:].isdigit() else 0)


def uncast(v, w0):
    """See through casts that keep every bit of a field w0 bits wide."""
    x = v
    while x.k == "cast":
        if twidth(str(x.a[0])) < w0:
            return v
        x = x.a[-1]
    return x


# ------------------------------------------------------------ effects
COVERED = {"cdef_coded", "above_partition_context", "left_partition_context",
           "above_tx_context", "left_tx_context", "above_coeff_context",
           "left_coeff_context"}


def constant(c, adt, fld, seen=()):
    """The one constant every write of a field stores, or None."""
    if (adt, fld) in seen or len(seen) > 6:
        return ()
    vals = set()
    for f, line, pl in field_borrows(c, adt, fld):
        return None
    for f, line, rv in field_writes(c, adt, fld):
        if f.nname.endswith("Clone>::clone"):
            continue
        v = rvconst(c, f, rv, seen + ((adt, fld),))
        if v is None:
            return None
        if v != ():
            vals.add(v)
    return vals.pop() if len(vals) == 1 else None


def rvconst(c, f, rv, seen):
    if rv[0] != "use":
        return None
    o = rv[1]
    if o[0] == "k":
        return ("k", o[2]) if isinstance(o[2], (bool, int)) else None
    if o[0] not in ("p", "m"):
        return None
    pl = o[1]
    if len(pl) > 1 and isinstance(pl[-1], str) and pl[-1].startswith("."):
        from sa.query import _base_adt
        b = _base_adt(c, f, pl[:-1])
        if b:
            return constant(c, b, pl[-1][1:], seen)
    if len(pl) == 1:
        src = [s[2] for bb in f.bbs if bb is not None for s in bb[0]
               if s[0] == "=" and list(s[1]) == list(pl)]
        if len(src) == 1:
            return rvconst(c, f, src[0], seen)
    return None


def effects(ctx):
    """Context state outside the checkpoint is not written while coding."""
    c = ctx.lib
    trial = [f.key for f in c.fns.values() if f.nname in (
        "encoder::encode_partition_bottomup", "encoder::encode_partition_"
        "topdown", "rdo::rdo_mode_decision", "rdo::rdo_partition_decision")]
    ctx.ob(len(trial) == 4, "effects:roots", "%d of 4 search functions found"
           % len(trial), "")
    inside = c.reach(trial)
    names = [f[0] for f in c.adt("BlockContext")["variants"][0][2]]
    n = 0
    for fld in names:
        if fld in COVERED or fld == "blocks":
            continue
        if constant(c, "BlockContext", fld):
            continue
        for q in (field_writes, field_borrows):
            for f, line, _ in q(c, "BlockContext", fld):
                n += 1
                ctx.ob(f.key not in inside, "effects:BlockContext." + fld,
                       "%s, reachable while trial coding, changes %s, which "
                       "is not in the checkpoint" % (f.nname, fld),
                       f.loc(line))
    cd = c.adt("CDFContext")
    for fld in [f[0] for f in cd["variants"][0][2]]:
        for q in (field_writes, field_borrows):
            for f, line, _ in q(c, "CDFContext", fld):
                n += 1
                ctx.ob(f.key not in inside, "effects:CDFContext." + fld,
                       "%s, reachable while trial coding, changes %s without "
                       "logging it" % (f.nname, fld), f.loc(line))
    ctx.count("effect_sites", n)
    # distributions adapt only through the log
    for f in c.fns.values():
        for _, rec, args, dest, tgt, line in f.calls():
            if rec and last(rec["p"]) == "update_cdf" and not \
                    f.nname.endswith("update_cdf"):
                ctx.ob(last(f.nname) == "symbol_with_update",
                       "effects:update", "%s adapts a distribution without "
                       "logging it" % f.nname, f.loc(line))
    # the log is only dropped where no checkpoint is live
    for f in c.fns.values():
        for _, rec, args, dest, tgt, line in f.calls():
            if rec and norm(rec["p"]).endswith("CDFContextLog::clear"):
                ctx.ob(f.key not in inside, "effects:clear", "%s clears the "
                       "log while a checkpoint may be live" % f.nname,
                       f.loc(line))


# ------------------------------------------------------------ dirty / clean
def is_cw(c, tid):
    t = c.types[tid]
    return t["k"] == "ref" and t["s"].startswith("&mut ") and \
        "ContextWriter" in t["s"] and "Checkpoint" not in t["s"]


def is_writer(c, tid):
    t = c.types[tid]
    if t["k"] != "ref":
        return False
    e = c.types[t["e"]]
    return e["k"] == "param" or "Writer" in e["s"] and \
        "ContextWriter" not in e["s"]


def dirtyflow(ctx):
    c = ctx.lib
    prim = set()        # (fn key, block): contexts written by a statement
    for fld in COVERED:
        for q in (field_writes, field_borrows):
            for f, line, _ in q(c, "BlockContext", fld):
                if last(f.nname) in ("new", "checkpoint", "rollback"):
                    continue
                prim.add(f.key)
    base = {}
    for f in c.fns.values():
        n = f.nname
        if last(n) == "symbol_with_update" or f.key in prim:
            base[f.key] = True
        if n.endswith("ContextWriter::rollback"):
            base[f.key] = False
    cg = c.callgraph()
    rel = set(base)
    grew = True
    rev = {}
    for k, s in cg.items():
        for x in s:
            rev.setdefault(x, set()).add(k)
    work = list(rel)
    while work:
        for y in rev.get(work.pop(), ()):
            if y not in rel:
                rel.add(y)
                work.append(y)
    # transfer: (from clean, from dirty) -> frozenset of states
    T = {}
    for k in rel:
        if k in base:
            T[k] = ({1}, {1}) if base[k] else ({0}, {0})
        else:
            T[k] = (set(), set())

    def step(f, start, note=None):
        inn = {0: {start}}
        work = [0]
        out = set()
        while work:
            b = work.pop()
            bb = f.bbs[b]
            if bb is None:
                continue
            cur = set(inn[b])
            for s in bb[0]:
                if s[0] == "=" and s[2][0] == "agg" and s[2][1] == "closure" \
                        and s[2][2] in T:
                    x = set(cur)
                    for v in cur:
                        x |= T[s[2][2]][v]
                    cur = x
            t = bb[1]
            if t[0] == "call":
                rec = t[1][1] if t[1][0] == "fn" else None
                if rec is not None:
                    ks = c.callees(rec)
                    if note is not None:
                        note(b, rec, cur, t[5])
                    hit = [k for k in ks if k in T]
                    if hit:
                        x = set()
                        for v in cur:
                            for k in ks:
                                x |= T[k][v] if k in T else {v}
                        cur = x
            if t[0] == "ret" or t[0] == "return":
                out |= cur
            for y in f.succ(b):
                if not cur <= inn.get(y, set()):
                    inn[y] = inn.get(y, set()) | cur
                    work.append(y)
        return out
    ch = True
    rounds = 0
    while ch:
        ch = False
        rounds += 1
        for k in rel:
            if k in base:
                continue
            f = c.fns[k]
            n = (step(f, 0), step(f, 1))
            if n[0] - T[k][0] or n[1] - T[k][1]:
                T[k] = (T[k][0] | n[0], T[k][1] | n[1])
                ch = True
    ctx.count("dirty_functions", len(rel))
    ctx.count("dirty_rounds", rounds)
    n = 0
    for k in sorted(rel):
        f = c.fns[k]
        if f.is_closure or k in base:
            continue
        ps = [f.locals[i + 1] for i in range(f.nargs)]
        ps = [p[0] if isinstance(p, (list, tuple)) else p for p in ps]
        if not any(is_cw(c, p) for p in ps):
            continue
        must = not any(is_writer(c, p) for p in ps) or \
            f.nname in ("rdo::rdo_partition_decision",
                        "rdo::rdo_loop_decision")
        ctx.saw(f)
        if not must:
            continue
        n += 1
        ctx.ob(1 not in T[k][0], "clean:" + f.nname, "%s tries out symbols "
               "without a caller's writer and can return with contexts or "
               "distributions still changed" % f.nname, f.loc())

        def note(b, rec, cur, line):
            if norm(rec["p"]).endswith("ContextWriter::checkpoint"):
                ctx.ob(1 not in cur, "clean:" + f.nname, "a checkpoint is "
                       "taken after trial coding and before the rollback",
                       f.loc(line))
        step(f, 0, note)
    ctx.ob(n >= 4, "clean:functions", "only %d search functions found" % n, "")
    ctx.count("search_functions", n)
    ctx.dirty = T


# ------------------------------------------------------------ partition search
def roots(c, f, bind, local, seen=()):
    """Tokens (and checkpoints ("cp", token)) a local can stand for."""
    if local in bind:
        return {bind[local]}
    if local in seen:
        return set()
    out = set()
    for bb in f.bbs:
        if bb is None:
            continue
        for s in bb[0]:
            if s[0] == "=" and s[1][0] == local:
                rv = s[2]
                for pl in places(rv):
                    out |= roots(c, f, bind, pl[0], seen + (local,))
        t = bb[1]
        if t[0] == "call" and t[3][0] == local and t[1][0] == "fn":
            rec = t[1][1]
            n = last(norm(rec["p"]))
            if n == "checkpoint" and t[2]:
                for x in oproots(c, f, bind, t[2][0], seen + (local,)):
                    out.add(("cp", x))
            elif n in ("clone", "deref", "deref_mut", "borrow", "as_ref"):
                for o in t[2]:
                    out |= oproots(c, f, bind, o, seen + (local,))
    return out


def places(rv):
    if rv[0] in ("use", "cast"):
        o = rv[-1] if rv[0] == "use" else next(
            x for x in rv[1:] if isinstance(x, list) and x
            and x[0] in ("p", "m", "k"))
        return [o[1]] if o[0] in ("p", "m") else []
    if rv[0] in ("ref", "addr", "rawptr"):
        return [x for x in rv[1:] if isinstance(x, list)]
    if rv[0] == "agg":
        return [o[1] for o in rv[-1] if o[0] in ("p", "m")]
    return []


def oproots(c, f, bind, o, seen=()):
    return roots(c, f, bind, o[1][0], seen) if o[0] in ("p", "m") else set()


def searches(ctx):
    """The contexts and the two writers of a partition search move in step."""
    c = ctx.lib
    T = ctx.dirty
    CLEAN, DIRTY = (0, 0, 0), (1, 1, 1)
    memo = {}

    def involved(f):
        """The function itself rolls back what its caller gave it."""
        ps = set(range(1, f.nargs + 1))
        for bb in f.bbs:
            if bb and bb[1][0] == "call" and bb[1][1][0] == "fn":
                n = last(norm(bb[1][1][1]["p"]))
                if n == "rollback" and len(bb[1][2]) > 1 and all(
                        oproots(c, f, {p: p for p in ps}, o) & ps
                        for o in bb[1][2][:2]):
                    return True
        return False

    def flow(f, bind, start, stack):
        key = (f.key, tuple(sorted(bind.items())), start)
        if key in memo:
            return memo[key]
        inn = {0: {start}}
        work = [0]
        out = set()
        rt = {}

        def oroots(o):
            if o[0] not in ("p", "m"):
                return set()
            l = o[1][0]
            if l not in rt:
                rt[l] = roots(c, f, bind, l)
            return rt[l]

        def coding(cur, what, line):
            for s in cur:
                ctx.ob(s in (CLEAN, DIRTY), "step:" + f.nname, "%s with the "
                       "contexts and the writers at different points (contexts"
                       ", first, second writer rolled back: %s)" % (
                           what, ", ".join("no" if x else "yes"
                                           for x in s)), f.loc(line))
        while work:
            b = work.pop()
            bb = f.bbs[b]
            if bb is None:
                continue
            cur = set(inn[b])
            t = bb[1]
            if t[0] == "call" and t[1][0] == "fn":
                rec = t[1][1]
                n = last(norm(rec["p"]))
                tok = [oroots(o) for o in t[2]]
                flat_ = set().union(*tok) if tok else set()
                ks = c.callees(rec)
                if n == "rollback" and tok and tok[0] & {0, 1, 2}:
                    ok = len(tok[0]) == 1 and len(tok) > 1 and \
                        tok[1] == {("cp", x) for x in tok[0]}
                    ctx.ob(ok, "pair:" + f.nname, "a rollback is not given "
                           "the checkpoint taken from the same writer",
                           f.loc(t[5]))
                    cur = {tuple(0 if (i,) == tuple(tok[0]) else v
                                 for i, v in enumerate(s)) for s in cur}
                elif n == "checkpoint" and tok and tok[0] & {0, 1, 2}:
                    for s in cur:
                        ctx.ob(not any(s[i] for i in tok[0]), "clean:" +
                               f.nname, "a checkpoint is taken after trial "
                               "coding", f.loc(t[5]))
                elif 0 in flat_ and any(1 in T[k][0] for k in ks if k in T):
                    sub = [c.fns[k] for k in ks if k in c.fns]
                    if n == "write_partition":
                        for s in cur:
                            ctx.ob(s == CLEAN, "fresh:" + f.nname, "a "
                                   "partition symbol is coded on top of a "
                                   "trial that was not rolled back",
                                   f.loc(t[5]))
                        cur = {DIRTY}
                    elif len(sub) == 1 and sub[0].key not in stack and \
                            sub[0].nargs == len(t[2]) and involved(sub[0]) \
                            and len(flat_ & {0, 1, 2}) == 3:
                        nb = {i + 1: min(x) for i, x in enumerate(tok)
                              if len(x) == 1}
                        x = set()
                        for s in cur:
                            x |= flow(sub[0], nb, s, stack + (sub[0].key,))
                        cur = x
                    else:
                        coding(cur, "%s codes" % n, t[5])
                        cur = {DIRTY}
                elif flat_ & {0, 1, 2} and len(ks) == 1 and \
                        ks[0] in c.fns and involved(c.fns[ks[0]]) and \
                        ks[0] not in stack and c.fns[ks[0]].nargs == len(t[2]):
                    sub = c.fns[ks[0]]
                    nb = {i + 1: min(x, key=str) for i, x in enumerate(tok)
                          if len(x) == 1}
                    x = set()
                    for s in cur:
                        x |= flow(sub, nb, s, stack + (sub.key,))
                    cur = x
            elif t[0] in ("ret", "return"):
                out |= cur
            for y in f.succ(b):
                if not cur <= inn.get(y, set()):
                    inn[y] = inn.get(y, set()) | cur
                    work.append(y)
        memo[key] = out
        return out

    n = 0
    for k in sorted(T):
        f = c.fns[k]
        if f.is_closure:
            continue
        ps = [f.locals[i + 1] for i in range(f.nargs)]
        ps = [p[0] if isinstance(p, (list, tuple)) else p for p in ps]
        cws = [i + 1 for i, p in enumerate(ps) if is_cw(c, p)]
        ws = [i + 1 for i, p in enumerate(ps) if is_writer(c, p)]
        if len(cws) != 1 or len(ws) != 2 or not any(
                bb and bb[1][0] == "call" and bb[1][1][0] == "fn" and
                last(norm(bb[1][1][1]["p"])) == "checkpoint"
                for bb in f.bbs):
            continue
        n += 1
        out = flow(f, {cws[0]: 0, ws[0]: 1, ws[1]: 2}, CLEAN, (k,))
        for s in out:
            ctx.ob(s in (CLEAN, DIRTY), "step:" + f.nname, "%s can return with "
                   "the contexts and the writers at different points (contexts"
                   ", first, second writer rolled back: %s)" % (
                       f.nname, ", ".join("no" if x else "yes" for x in s)),
                   f.loc())
        if f.nname.startswith("rdo::"):
            ctx.ob(out <= {CLEAN}, "clean:" + f.nname, "%s decides only, but "
                   "can return with its trial still in a writer" % f.nname,
                   f.loc())
        ctx.saw(f)
    ctx.ob(n >= 2, "step:functions", "only %d partition searches found" % n,
           "")
    ctx.count("partition_searches", n)

"""C20: the constants a decoder shares are AV1's."""
import hashlib
import json
import math
import os
from sa.val import *
from sa.gate import *
from sa.prog import norm
from sa import ae as _ae
from checks.c18 import last, arr
from checks.c19 import leaves, fnamed

RULE = """The compiler's own evaluation of every normative table (default
distributions, scans, quantizer look-ups, interpolation and edge filters,
smooth weights, self-guided and Wiener parameters, transform constants and
types, coefficient context maps, block/transform size maps, top-right and
bottom-left availability, segmentation features, levels) is compared with
recorded AV1 values by content digest, and with the rules that define it where
there are any.  What a new context holds per quantizer, what a count reset
leaves, which filter and which scan a block uses is computed by abstract
interpretation of the selecting functions."""
ASSUME = ["the recorded digests are AV1's tables"]
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run(ctx):
    tables(ctx)
    rules(ctx)
    levels(ctx)
    initial(ctx)
    reset(ctx)
    filters(ctx)
    derivative(ctx)


# ------------------------------------------------------------ values
def flat(c, v):
    if isinstance(v, bool):
        return [int(v)]
    if isinstance(v, list):
        r = []
        for x in v:
            r += flat(c, x)
        return r
    if isinstance(v, dict):
        if "static" in v:
            d = c.statics.get(v["static"]) or c.consts.get(v["static"])
            return flat(c, d["val"]) if d else ["?" + v["static"]]
        if "ref" in v:
            return flat(c, v["ref"])
        if "tup" in v:
            return flat(c, v["tup"])
        if "adt" in v:
            r = []
            if "v" in v:
                r.append(v["v"])
            for k in sorted(v.get("f", {})):
                r += flat(c, v["f"][k])
            return r
        if "str" in v:
            return [v["str"]]
        return [str(v)]
    return [v]


def dig(vals):
    return hashlib.sha256(json.dumps(vals).encode()).hexdigest()[:24]


def all_tables(c):
    """last path segment -> [(path, def, flattened values)]"""
    out = {}
    for tab in (c.consts, c.statics):
        for k, d in tab.items():
            if d.get("val") is None or not str(d.get("file", "")).count("src/"):
                continue
            out.setdefault(last(k), []).append((k, d))
    return out


def oracle():
    with open(os.path.join(V, "oracle", "tables.json")) as f:
        return json.load(f)


def tables(ctx):
    c = ctx.lib
    ts = all_tables(c)
    ctx.ts = ts
    want = oracle()
    have = {}           # digest -> path, for tables that moved or were renamed
    for lst in ts.values():
        for k, d in lst:
            v = flat(c, d["val"])
            if len(v) > 2:
                have.setdefault(dig(v), (k, d))
    for n in sorted(want):
        w = want[n]
        if n[0] == "!":
            continue
        if n in ts:
            ok = True
            for k, d in ts[n]:
                v = flat(c, d["val"])
                good = dig(v) == w["sha"]
                ok = ok and good
                diff = ""
                if not good and "vals" in w and len(v) == len(w["vals"]):
                    i = next(i for i in range(len(v)) if v[i] != w["vals"][i])
                    diff = ": entry %d is %s, AV1 has %s" % (
                        i, v[i], w["vals"][i])
                ctx.ob(good, "table:" + n, "%s (%d values) is not AV1's table"
                       "%s" % (k, len(v), diff), "%s:%s" % (
                           d["file"], d["line"]))
        else:
            ctx.ob(w["sha"] in have, "table:" + n, "no table in the crate has "
                   "the values of AV1's %s" % n, "")
    ctx.count("tables", len(want))


def val(ctx, n):
    lst = ctx.ts.get(n)
    return flat(ctx.lib, lst[0][1]["val"]) if lst else None


def raw(ctx, n):
    lst = ctx.ts.get(n)
    return (lst[0][1]["val"], "%s:%s" % (lst[0][1]["file"], lst[0][1]["line"])
            ) if lst else (None, "")


# ------------------------------------------------------------ rules
def rows(v):
    """Innermost arrays of a nested list."""
    if v and isinstance(v[0], list):
        for x in v:
            yield from rows(x)
    else:
        yield v


def rules(ctx):
    c = ctx.lib
    n = 0
    for name, lst in sorted(ctx.ts.items()):
        for k, d in lst:
            v = d["val"]
            loc = "%s:%s" % (d["file"], d["line"])
            if ("cdf" in name.lower()) and isinstance(v, list) and \
                    c.types[d["ty"]]["s"].replace("[", "").startswith("u16"):
                for r in rows(v):
                    n += 1
                    if "palette" in name:
                        r = padded(r)
                    ctx.ob(good_cdf(r), "cdf:" + name, "%s has a distribution "
                           "that is not one: %s" % (k, r), loc)
    ctx.ob(n > 1000, "cdf", "only %d distributions found" % n, "")
    ctx.count("distributions", n)
    # scans
    for name, lst in sorted(ctx.ts.items()):
        if "_scan_" in name and name.split("_scan_")[1][0].isdigit():
            k, d = lst[0]
            v = d["val"]
            loc = "%s:%s" % (d["file"], d["line"])
            ctx.ob(sorted(v) == list(range(len(v))), "scan:" + name, "%s does "
                   "not visit every coefficient once" % k, loc)
            iv = ctx.ts.get(name.replace("_scan_", "_iscan_"))
            if iv:
                inv = iv[0][1]["val"]
                ctx.ob(len(inv) == len(v) and all(
                    inv[p] == i for i, p in enumerate(v)), "scan:" + name,
                    "the inverse of %s is not its inverse" % k, loc)
    # formulas
    v, loc = raw(ctx, "COSPI_INV")
    if v:
        ctx.ob(all(x == round(math.cos(math.pi * j / 128) * 4096)
                   for j, x in enumerate(v)), "rule:cospi", "COSPI_INV is not "
               "cos(pi j/128)", loc)
    v, loc = raw(ctx, "X_BY_XPLUS1")
    if v:
        ctx.ob(v[0] == 1 and v[255] == 256 and all(
            v[x] == (256 * x + (x + 1) // 2) // (x + 1)
            for x in range(1, 255)), "rule:x_by_xplus1", "X_BY_XPLUS1 is not "
            "256 x/(x+1)", loc)
    v, loc = raw(ctx, "CDEF_DIV_TABLE")
    if v:
        ctx.ob(all(v[i] == 840 // i for i in range(1, 9)), "rule:cdef_div",
               "CDEF_DIV_TABLE is not 840/n", loc)
    v, loc = raw(ctx, "SUBPEL_FILTERS")
    if v:
        for fi, f in enumerate(v):
            for p, taps in enumerate(f):
                ctx.ob(sum(taps) == 128, "rule:subpel", "filter %d at %d/16 "
                       "does not sum to 128" % (fi, p), loc)
                if p:
                    ctx.ob(taps == f[16 - p][::-1], "rule:subpel", "filter %d "
                           "at %d/16 does not mirror %d/16" % (fi, p, 16 - p),
                           loc)
    for q in ("dc_qlookup_Q3", "dc_qlookup_10_Q3", "dc_qlookup_12_Q3",
              "ac_qlookup_Q3", "ac_qlookup_10_Q3", "ac_qlookup_12_Q3"):
        v = val(ctx, q)
        _, loc = raw(ctx, q)
        if v:
            ctx.ob(all(a <= b for a, b in zip(v, v[1:])) and v[0] == 4,
                   "rule:" + q, "%s is not increasing from 4" % q, loc)


def good_cdf(r):
    p = r[:-1]
    return len(r) >= 2 and r[-1] == 0 and all(
        0 < x < 32768 for x in p) and all(a >= b for a, b in zip(p, p[1:])) \
        or r == [0] * len(r) and len(r) == 2


def padded(r):
    """A distribution over fewer symbols than its row has room for."""
    while len(r) > 2 and r[-2] == 0:
        r = r[:-1]
    return r


# ------------------------------------------------------------ levels
LEV = {0: (147456, 2048, 1152, 4423680), 1: (278784, 2816, 1584, 8363520),
       4: (665856, 4352, 2448, 19975680), 5: (1065024, 5504, 3096, 31950720),
       8: (2359296, 6144, 3456, 70778880), 9: (2359296, 6144, 3456, 141557760),
       12: (8912896, 8192, 4352, 267386880),
       13: (8912896, 8192, 4352, 534773760),
       14: (8912896, 8192, 4352, 1069547520),
       15: (8912896, 8192, 4352, 1069547520),
       16: (35651584, 16384, 8704, 1069547520),
       17: (35651584, 16384, 8704, 2139095040),
       18: (35651584, 16384, 8704, 4278190080),
       19: (35651584, 16384, 8704, 4278190080)}


def levels(ctx):
    for j, n in enumerate(("AV1_LEVEL_MAX_PIC_SIZE", "AV1_LEVEL_MAX_H_SIZE",
                           "AV1_LEVEL_MAX_V_SIZE",
                           "AV1_LEVEL_MAX_DISPLAY_RATE")):
        v, loc = raw(ctx, n)
        if not ctx.ob(v is not None, "level:" + n, "no table %s" % n, ""):
            continue
        for i in LEV:
            ctx.ob(v[i] == LEV[i][j], "level:" + n, "level %d.%d has %d, AV1's "
                   "Annex A has %d" % (2 + i // 4, i % 4, v[i], LEV[i][j]),
                   loc)
    v, loc = raw(ctx, "AV1_LEVEL_DEFINED")
    ctx.ob(v is not None and [bool(x) for x in v] == [i in LEV for i in
                                                      range(32)],
           "level:defined", "the defined levels are not AV1's", loc)


# ------------------------------------------------------------ contexts
def agg_flat(v):
    if v.k == "agg":
        r = []
        for n, x in sorted(zip(v.a[3] or [""] * len(v.a[4]), v.a[4]),
                           key=lambda t: str(t[0])) if v.a[3] else [
                               ("", x) for x in v.a[4]]:
            r += agg_flat(x)
        return r
    return [v.a[0] if isk(v) else show(v)]


def initial(ctx):
    c = ctx.lib
    f = fnamed(ctx, "context::cdf_context::CDFContext::new")
    want = oracle().get("!initial")
    per = {}
    names = {x[0] for x in c.adt("CDFContext")["variants"][0][2]}
    for q in list(range(0, 256)):
        outs, _ = run_cell(c, f, {}, args=[K(q)], root="x")
        if not ctx.ob(len(outs) == 1 and outs[0].ret.k == "agg", "initial",
                      "%d outcomes" % len(outs), f.loc()):
            return
        r = outs[0].ret
        got = {}
        for n, v in zip(r.a[3], r.a[4]):
            got[n.lstrip(".")] = v
        cls = 0 if q <= 20 else 1 if q <= 60 else 2 if q <= 120 else 3
        for n in names:
            if n not in got:
                ctx.ob(False, "initial:" + n, "%s is not set" % n, f.loc())
                continue
            key = (cls, n)
            if key in per:
                ok = per[key][0] is got[n]
                if not ok:
                    ok = agg_flat(got[n]) == per[key][1]
                ctx.ob(ok, "initial:" + n, "base_q_idx %d starts from other "
                       "probabilities than the rest of its class" % q, f.loc())
            else:
                per[key] = (got[n], agg_flat(got[n]))
    res = {}
    for (cls, n), (v, fl) in per.items():
        res["%d:%s" % (cls, n)] = dig(fl)
        for d in dists(v):
            ctx.ob(good_cdf(d), "initial:" + n, "class %d starts with %s" % (
                cls, d), f.loc())
    ctx.initial = res
    if want is not None:
        for k in sorted(want["vals"]):
            n = k.split(":")[1]
            ctx.ob(res.get(k) == want["vals"][k] or n not in names and
                   want["vals"][k] in res.values(), "initial:" + n,
                   "for quantizer class %s %s does not start from AV1's default"
                   " probabilities" % tuple(k.split(":")), f.loc())
    ctx.saw(f)


def dists(v):
    """Innermost arrays, except the padding of the motion vector contexts."""
    if v.k != "agg":
        return
    if v.a[4] and all(isk(x) for x in v.a[4]):
        yield [x.a[0] for x in v.a[4]]
        return
    for n, x in zip(v.a[3] or [""] * len(v.a[4]), v.a[4]):
        if "padding" not in str(n):
            yield from dists(x)


def lasthook(a, st, n, rn, rec, args, site, line):
    m = last(n)
    if m in ("last_mut", "last") and args and args[0].k == "ref":
        ln = a.length(st, args[0])
        if isk(ln) and ln.a[0]:
            return [(st, agg("adt", "std::option::Option", "Some", (".0",), (
                _ae.elemref(args[0], K(ln.a[0] - 1)),)))]
    if m == "fill" and args and args[0].k == "ref":
        ln = a.length(st, args[0])
        if isk(ln):
            for i in range(ln.a[0]):
                r = _ae.elemref(args[0], K(i))
                st.put((r.a[0], r.a[1]), args[1])
            return [(st, UNIT)]
    return None


def reset(ctx):
    """Clearing the counts touches every distribution's last entry only."""
    c = ctx.lib
    f = fnamed(ctx, "context::cdf_context::CDFContext::reset_counts")
    outs, _ = run_cell(c, f, {}, args=[sym("self")], root="self", count=64,
                       max_steps=3000000, call=lasthook)
    if not ctx.ob(len(outs) == 1, "reset", "%d outcomes" % len(outs), f.loc()):
        return
    st = outs[0].st
    ad = c.adt("CDFContext")
    n = 0
    for (o, ft), fl in zip(ad["layout"][1:], ad["variants"][0][2]):
        for off, ln, path in leaves(c, ft, o, "." + fl[0]):
            if "padding" in path or not ln:
                continue
            n += 1
            lv = pathof(path)
            name = fl[0]
            for i in {0, ln // 2, max(0, ln - 2), ln - 1}:
                v = st.load((("X", sym("self")), lv + (("i", K(i)),)))
                if i == ln - 1:
                    ctx.ob(v is K(0), "reset:" + name, "the count of %s "
                           "survives as %s" % (path[1:], show(v)[:60]),
                           f.loc())
                else:
                    ctx.ob(v.k == "f" or not isk(v) and "?call" not in show(v),
                           "reset:" + name, "clearing the count of %s changes "
                           "entry %d to %s" % (path[1:], i, show(v)[:60]),
                           f.loc())
    ctx.count("counts_reset", n)
    ctx.ob(n > 1000, "reset", "only %d distributions found" % n, f.loc())
    ctx.saw(f)


def pathof(p):
    out = []
    for part in p[1:].split("."):
        b = part.split("[")
        out.append("." + b[0])
        for x in b[1:]:
            out.append(("i", K(int(x[:-1]))))
    return tuple(out)


DR = {3: 1023, 6: 547, 9: 372, 14: 273, 17: 215, 20: 178, 23: 151, 26: 132,
      29: 116, 32: 102, 36: 90, 39: 80, 42: 71, 45: 64, 48: 57, 51: 51, 54: 45,
      58: 40, 61: 35, 64: 31, 67: 27, 70: 23, 73: 19, 76: 15, 81: 11, 84: 7,
      87: 3}


def derivative(ctx):
    f = fnamed(ctx, "predict::rust::dr_intra_derivative")
    for a in DR:
        outs, _ = run_cell(ctx.lib, f, {}, args=[K(a)], root="x")
        got = [o.ret.a[0] if isk(o.ret) else show(o.ret) for o in outs]
        ctx.ob(got == [DR[a]], "derivative", "an angle of %d has derivative "
               "%s, AV1 has %d" % (a, got, DR[a]), f.loc())
    ctx.saw(f)


def filters(ctx):
    c = ctx.lib
    f = fnamed(ctx, "mc::rust::get_filter")
    M = c.adt("FilterMode")
    sf, loc = raw(ctx, "SUBPEL_FILTERS")
    for v in M["variants"]:
        if v[0] == "SWITCHABLE":
            continue        # per-block filters; never a filter itself
        for ln in (2, 4, 8, 16, 32, 64, 128):
            for fr in range(16):
                outs, _ = run_cell(c, f, {}, args=[
                    agg("adt", M["adt"], v[0], (), ()), K(fr), K(ln)],
                    root="x")
                w = sf[spec_filter(v[0], ln)][fr]
                got = [agg_flat(o.ret) for o in outs]
                ctx.ob(got == [w], "filter:" + v[0], "blocks of %d use %s at "
                       "%d/16, AV1 has %s" % (ln, got[:1], fr, w), f.loc())
    ctx.saw(f)


def spec_filter(mode, w):
    i = {"REGULAR": 0, "SMOOTH": 1, "SHARP": 2, "BILINEAR": 3}[mode]
    if w <= 4:
        if i in (0, 2):
            return 4
        if i == 1:
            return 5
    return i

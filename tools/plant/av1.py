"""Small AV1 header parser (subset: no superres, no operating point choice)."""
class B:
    def __init__(s, b): s.b, s.p = b, 0
    def f(s, n):
        v = 0
        for _ in range(n):
            v = v << 1 | (s.b[s.p >> 3] >> (7 - (s.p & 7)) & 1); s.p += 1
        return v
    def su(s, n):
        v = s.f(n); return v - (1 << n) if v >> (n - 1) else v
    def uvlc(s):
        z = 0
        while not s.f(1): z += 1
        return (1 << z) - 1 + s.f(z)
    def ns(s, n):
        w = n.bit_length(); m = (1 << w) - n; v = s.f(w - 1)
        return v if v < m else (v << 1) - m + s.f(1)
    def align(s): s.p = (s.p + 7) & ~7

def leb(b, p):
    v = i = 0
    while True:
        c = b[p]; p += 1; v |= (c & 127) << 7 * i; i += 1
        if not c & 128: return v, p

def obus(b):
    p = 0
    while p < len(b):
        h = b[p]; t = h >> 3 & 15; p += 1
        assert h & 0x80 == 0 and h & 2, "obu header"
        if h & 4: p += 1
        n, p = leb(b, p)
        assert p + n <= len(b), "obu size"
        yield t, b[p:p + n]; p += n

def seq(b):
    r = B(b); s = {}
    s["profile"] = r.f(3); s["still"] = r.f(1); s["reduced"] = r.f(1)
    s["decoder_model"] = s["timing"] = 0
    if s["reduced"]: s["level"] = r.f(5); s["tier"] = 0
    else:
        s["timing"] = r.f(1)
        if s["timing"]:
            s["units"] = r.f(32); s["scale"] = r.f(32); s["equal"] = r.f(1)
            if s["equal"]: s["ticks"] = r.uvlc()
            assert r.f(1) == 0
        s["idd"] = r.f(1); n = r.f(5) + 1; s["ops"] = n
        for i in range(n):
            s["idc"] = r.f(12); s["level"] = r.f(5)
            s["tier"] = r.f(1) if s["level"] > 7 else 0
            if s["idd"]:
                if r.f(1): r.f(4)
    s["wb"] = r.f(4) + 1; s["hb"] = r.f(4) + 1
    s["w"] = r.f(s["wb"]) + 1; s["h"] = r.f(s["hb"]) + 1
    s["ids"] = 0 if s["reduced"] else r.f(1)
    if s["ids"]: s["delta_id"] = r.f(4) + 2; s["id_len"] = r.f(3) + s["delta_id"] + 1
    s["sb128"] = r.f(1); s["filter_intra"] = r.f(1); s["edge"] = r.f(1)
    s["order_hint"] = s["oh_bits"] = 0; s["sct"] = 2; s["imv"] = 2
    for k in ("interintra", "masked", "warped", "dual", "jnt", "refmvs"): s[k] = 0
    if not s["reduced"]:
        for k in ("interintra", "masked", "warped", "dual"): s[k] = r.f(1)
        s["order_hint"] = r.f(1)
        if s["order_hint"]: s["jnt"] = r.f(1); s["refmvs"] = r.f(1)
        s["sct"] = 2 if r.f(1) else r.f(1)
        s["imv"] = 2
        if s["sct"] > 0: s["imv"] = 2 if r.f(1) else r.f(1)
        if s["order_hint"]: s["oh_bits"] = r.f(3) + 1
    s["superres"] = r.f(1); s["cdef"] = r.f(1); s["lr"] = r.f(1)
    hb = r.f(1); s["depth"] = 10 if hb else 8
    if s["profile"] == 2 and hb: s["depth"] = 12 if r.f(1) else 10
    s["mono"] = 0 if s["profile"] == 1 else r.f(1)
    s["cp"], s["tc"], s["mc"] = (r.f(8), r.f(8), r.f(8)) if r.f(1) else (2, 2, 2)
    s["sepuv"] = 0; s["csp"] = 0
    if s["mono"]: s["range"] = r.f(1); s["ssx"] = s["ssy"] = 1
    elif (s["cp"], s["tc"], s["mc"]) == (1, 13, 0): s["range"] = 1; s["ssx"] = s["ssy"] = 0; s["sepuv"] = r.f(1)
    else:
        s["range"] = r.f(1)
        if s["profile"] == 0: s["ssx"] = s["ssy"] = 1
        elif s["profile"] == 1: s["ssx"] = s["ssy"] = 0
        elif s["depth"] == 12:
            s["ssx"] = r.f(1); s["ssy"] = r.f(1) if s["ssx"] else 0
        else: s["ssx"], s["ssy"] = 1, 0
        if s["ssx"] and s["ssy"]: s["csp"] = r.f(2)
        s["sepuv"] = r.f(1)
    s["grain"] = r.f(1)
    assert r.f(1) == 1, "trailing bit"
    while r.p & 7: assert r.f(1) == 0
    assert r.p == 8 * len(b), "sequence header length"
    return s

class State:
    def __init__(s): s.refs = [None] * 8; s.seq = None

def frame(st, b, shown=None):
    """Parse one frame header; updates st.refs."""
    s = st.seq; r = B(b); h = {}
    if not s["reduced"]:
        h["existing"] = r.f(1)
        if h["existing"]:
            h["idx"] = r.f(3); h["shown"] = st.refs[h["idx"]]
            assert h["shown"] is not None, "shows an empty slot"
            if s["grain"]: pass
            if h["shown"]["type"] == 0: st.refs = [h["shown"]] * 8
            h["bits"] = r.p
            return h
        h["type"] = r.f(2); h["show"] = r.f(1)
        h["showable"] = (h["type"] != 0) if h["show"] else r.f(1)
        h["err"] = 1 if h["type"] == 3 or (h["type"] == 0 and h["show"]) else r.f(1)
    else: h.update(existing=0, type=0, show=1, showable=0, err=1)
    intra = h["type"] in (0, 2)
    if h["type"] == 0 and h["show"]: st.refs = [None] * 8
    h["nocdfupd"] = r.f(1)
    h["sct"] = r.f(1) if s["sct"] == 2 else s["sct"]
    h["imv"] = 0
    if h["sct"]: h["imv"] = r.f(1) if s["imv"] == 2 else s["imv"]
    if intra: h["imv"] = 1
    h["override"] = 1 if h["type"] == 3 else (0 if s["reduced"] else r.f(1))
    h["oh"] = r.f(s["oh_bits"])
    h["primary"] = 7 if intra or h["err"] else r.f(3)
    h["refresh"] = 0xff if h["type"] == 3 or (h["type"] == 0 and h["show"]) else r.f(8)
    if (not intra or h["refresh"] != 0xff) and h["err"] and s["order_hint"]:
        h["ref_oh"] = [r.f(s["oh_bits"]) for _ in range(8)]
    def size():
        if h["override"]:
            h["w"] = r.f(s["wb"]) + 1; h["h"] = r.f(s["hb"]) + 1
        else: h["w"], h["h"] = s["w"], s["h"]
        if s["superres"]: assert r.f(1) == 0
        h["rdiff"] = r.f(1)
        h["rw"], h["rh"] = (r.f(16) + 1, r.f(16) + 1) if h["rdiff"] else (h["w"], h["h"])
    h["intrabc"] = 0; h["switchable"] = 0; h["ref"] = None
    if intra:
        size()
        if h["sct"]: h["intrabc"] = r.f(1)
    else:
        short = r.f(1) if s["order_hint"] else 0
        assert not short
        h["ref"] = [r.f(3) for _ in range(7)]
        if h["override"] and not h["err"]:
            raise AssertionError("size from refs")
        size()
        h["hp"] = 0 if h["imv"] else r.f(1)
        h["filter"] = 4 if r.f(1) else r.f(2)
        h["mms"] = r.f(1)
        h["usemvs"] = 0 if h["err"] or not s["refmvs"] else r.f(1)
    h["disend"] = 1 if s["reduced"] or h["nocdfupd"] else r.f(1)
    # tile info
    sb = 32 if s["sb128"] else 16; sbl = 5 if s["sb128"] else 4
    mc = 2 * ((h["w"] + 7) >> 3); mr = 2 * ((h["h"] + 7) >> 3)
    sc = (mc + sb - 1) >> sbl; sr = (mr + sb - 1) >> sbl
    mw = 4096 >> (sbl + 2); ma = (4096 * 2304) >> (2 * (sbl + 2))
    l2 = lambda b_, t: next(k for k in range(32) if b_ << k >= t)
    minc = l2(mw, sc); maxc = l2(1, min(sc, 64)); maxr = l2(1, min(sr, 64))
    mint = max(minc, l2(ma, sr * sc))
    h["uniform"] = r.f(1)
    if h["uniform"]:
        c = minc
        while c < maxc:
            if r.f(1): c += 1
            else: break
        tw = (sc + (1 << c) - 1) >> c; h["tc"] = (sc + tw - 1) // tw
        cl = l2(1, h["tc"])
        k = max(mint - cl, 0)
        while k < maxr:
            if r.f(1): k += 1
            else: break
        th = (sr + (1 << k) - 1) >> k; h["tr"] = (sr + th - 1) // th
        rl = l2(1, h["tr"])
    else: raise AssertionError("non uniform tiles")
    if cl or rl: h["ctx_tile"] = r.f(cl + rl); h["tsz"] = r.f(2) + 1
    h["q"] = r.f(8)
    dq = lambda: r.su(7) if r.f(1) else 0
    h["ydc"] = dq(); h["udc"] = h["uac"] = h["vdc"] = h["vac"] = 0
    if not s["mono"]:
        d = r.f(1) if s["sepuv"] else 0
        h["udc"] = dq(); h["uac"] = dq()
        if d: h["vdc"] = dq(); h["vac"] = dq()
        else: h["vdc"], h["vac"] = h["udc"], h["uac"]
    h["qm"] = r.f(1)
    if h["qm"]: r.f(8); s["sepuv"] and r.f(4)
    h["seg"] = r.f(1); h["segf"] = None
    if h["seg"]:
        if h["primary"] == 7: upd, h["segmap"] = 1, 1
        else:
            h["segmap"] = r.f(1)
            if h["segmap"]: h["segtemp"] = r.f(1)
            upd = r.f(1)
        h["segupd"] = upd
        if upd:
            h["segf"] = []
            bits, sg, mx = [8, 6, 6, 6, 6, 3, 0, 0], [1, 1, 1, 1, 1, 0, 0, 0], None
            for i in range(8):
                row = []
                for j in range(8):
                    if r.f(1): row.append(r.su(bits[j] + 1) if sg[j] else r.f(bits[j]))
                    else: row.append(None)
                h["segf"].append(row)
    h["dqp"] = r.f(1) if h["q"] > 0 else 0
    h["dlf"] = 0
    if h["dqp"]:
        h["dqres"] = r.f(2)
        if not h["intrabc"]: h["dlf"] = r.f(1)
        if h["dlf"]: h["dlfres"] = r.f(2); h["dlfm"] = r.f(1)
    qs = [h["q"]]
    if h["segf"]: qs = [min(255, max(0, h["q"] + (x[0] or 0))) for x in h["segf"]]
    lossless = all(q == 0 for q in qs) and not any(h[k] for k in ("ydc", "udc", "uac", "vdc", "vac"))
    h["lossless"] = lossless
    if not lossless and not h["intrabc"]:
        h["lf"] = [r.f(6), r.f(6)]
        if not s["mono"] and any(h["lf"]): h["lf"] += [r.f(6), r.f(6)]
        h["sharp"] = r.f(3); h["lfd"] = r.f(1)
        if h["lfd"]:
            h["lfdu"] = r.f(1)
            if h["lfdu"]: h["lfdv"] = [r.su(7) if r.f(1) else None for _ in range(10)]
        if s["cdef"]:
            h["damp"] = r.f(2) + 3; h["cbits"] = r.f(2)
            h["cstr"] = []
            for _ in range(1 << h["cbits"]):
                x = [r.f(4), r.f(2)]
                if not s["mono"]: x += [r.f(4), r.f(2)]
                h["cstr"].append(x)
        if s["lr"]:
            n = 1 if s["mono"] else 3
            h["lrt"] = [r.f(2) for _ in range(n)]
            if any(h["lrt"]):
                if s["sb128"]: h["lrs"] = r.f(1) + 1
                else:
                    h["lrs"] = r.f(1)
                    if h["lrs"]: h["lrs"] += r.f(1)
                if s["ssx"] and s["ssy"] and any(h["lrt"][1:]): h["lruv"] = r.f(1)
        h["txsel"] = r.f(1)
    if not intra: h["refsel"] = r.f(1)
    else: h["refsel"] = 0
    h["skipmode"] = None
    if h["refsel"] and s["order_hint"]:
        # skip mode allowed?
        bits = s["oh_bits"]
        def dist(a, b_):
            d = a - b_; m = 1 << (bits - 1); return (d & (m - 1)) - (d & m)
        fw = bk = -1; fo = bo = 0
        for i, x in enumerate(h["ref"]):
            o = st.refs[x]["oh"]
            if dist(o, h["oh"]) < 0:
                if fw < 0 or dist(o, fo) > 0: fw, fo = i, o
            elif dist(o, h["oh"]) > 0:
                if bk < 0 or dist(o, bo) < 0: bk, bo = i, o
        ok = fw >= 0 and bk >= 0
        if fw >= 0 and bk < 0:
            ok = any(dist(st.refs[x]["oh"], fo) < 0 for x in h["ref"])
        if ok: h["skipmode"] = r.f(1)
    h["warp"] = 0 if intra or h["err"] or not s["warped"] else r.f(1)
    h["redtx"] = r.f(1)
    if not intra:
        h["gm"] = [r.f(1) for _ in range(7)]
        assert not any(h["gm"]), "global motion"
    h["grain"] = None
    if s["grain"] and (h["show"] or h["showable"]):
        if r.f(1):
            g = h["grain"] = {"seed": r.f(16)}
            g["update"] = r.f(1) if h["type"] == 1 else 1
            if not g["update"]: g["ref"] = r.f(3)
            else:
                g["y"] = [(r.f(8), r.f(8)) for _ in range(r.f(4))]
                g["cfl"] = 0 if s["mono"] else r.f(1)
                if s["mono"] or g["cfl"] or (s["ssx"] and s["ssy"] and not g["y"]): g["u"] = g["v"] = []
                else:
                    g["u"] = [(r.f(8), r.f(8)) for _ in range(r.f(4))]
                    g["v"] = [(r.f(8), r.f(8)) for _ in range(r.f(4))]
                g["shift"] = r.f(2) + 8; g["lag"] = r.f(2)
                n = 2 * g["lag"] * (g["lag"] + 1); m = n
                if g["y"]: m = n + 1; g["ary"] = [r.f(8) - 128 for _ in range(n)]
                if g["cfl"] or g["u"]: g["aru"] = [r.f(8) - 128 for _ in range(m)]
                if g["cfl"] or g["v"]: g["arv"] = [r.f(8) - 128 for _ in range(m)]
                g["arshift"] = r.f(2) + 6; g["gsshift"] = r.f(2)
                if g["u"]: g["cb"] = (r.f(8), r.f(8), r.f(9))
                if g["v"]: g["cr"] = (r.f(8), r.f(8), r.f(9))
                g["overlap"] = r.f(1); g["clip"] = r.f(1)
    h["bits"] = r.p
    ref = {"type": h["type"], "oh": h["oh"], "hdr": h}
    for i in range(8):
        if h["refresh"] >> i & 1: st.refs[i] = ref
    return h

def stream(packets):
    """[(kind, info)] per packet: SEQ, META, FRAME, SHOW."""
    st = State(); out = []
    for pk in packets:
        u = []
        for i, (t, b) in enumerate(obus(pk)):
            if t == 2: assert i == 0 and not b, "temporal delimiter"; u.append(("TD", None))
            elif t == 1: st.seq = seq(b); u.append(("SEQ", st.seq))
            elif t == 5: u.append(("META", b))
            elif t in (3, 6):
                h = frame(st, b); h["obu"] = t
                if t == 6:
                    p = (h["bits"] + 7) // 8; h["tiles"] = tiles(h, b[p:])
                u.append(("FRAME" if t == 6 else "SHOW", h))
            else: raise AssertionError("obu type %d" % t)
        assert u and u[0][0] == "TD", "packet without temporal delimiter"
        out.append(u)
    return out

def tiles(h, b):
    n = h["tc"] * h["tr"]; p = 0
    if n > 1:
        assert b[0] >> 7 == 0; p = 1
    out = []
    for i in range(n):
        if i == n - 1: k = len(b) - p
        else: k = int.from_bytes(b[p:p + h["tsz"]], "little") + 1; p += h["tsz"]
        assert k > 0 and p + k <= len(b), "tile size"
        out.append(b[p:p + k]); p += k
    assert p == len(b)
    return out

def packets(path):
    """File: repeated u32 little-endian length + bytes."""
    b = open(path, "rb").read(); p = 0; out = []
    while p < len(b):
        n = int.from_bytes(b[p:p + 4], "little"); out.append(b[p + 4:p + 4 + n]); p += 4 + n
    return out

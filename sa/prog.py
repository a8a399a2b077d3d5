"""Program model over the MIR dump: functions, types, ADTs, constants, calls."""
import json, os, re
from functools import lru_cache


def norm(name):
    """Strip generic argument lists `::<..>` and lifetimes from a def path."""
    if "<" not in name:
        return name
    out = []
    i = 0
    n = len(name)
    while i < n:
        if name.startswith("::<", i) and not name.startswith("::<impl", i):
            d = 0
            j = i + 2
            while j < n:
                if name[j] == "<":
                    d += 1
                elif name[j] == ">" and name[j - 1] != "-":
                    d -= 1
                    if d == 0:
                        break
                j += 1
            i = j + 1
            continue
        out.append(name[i])
        i += 1
    s = "".join(out)
    # `<impl path::Type<..>>::m` written in another module -> `path::Type::m`
    m = re.match(r"^(.*?)<impl ([^<>]+)(<.*>)?>(::.*)$", s)
    if m and " for " not in s and " as " not in s:
        s = m.group(2) + m.group(4)
    return s


class Fn:
    __slots__ = ("d", "key", "name", "nname", "file", "line", "end", "bbs",
                 "locals", "nargs", "prog", "_succ", "_pred", "_dom", "_loops",
                 "_live", "crate", "_dbgn")

    def __init__(self, d, prog, crate):
        self.d = d
        self.key = d["fn"]
        self.name = d["name"]
        self.nname = norm(d["name"])
        self.file = d["file"]
        self.line = d["line"]
        self.end = d.get("end", d["line"])
        self.bbs = d["bb"]
        self.locals = d["locals"]
        self.nargs = d["nargs"]
        self.prog = prog
        self.crate = crate
        self._succ = self._pred = self._dom = self._loops = self._live = None
        self._dbgn = None

    def __repr__(self):
        return "<Fn %s>" % self.nname

    @property
    def is_closure(self):
        return self.d["kind"] == "closure"

    @property
    def is_ext(self):
        return self.d.get("ext", False)

    def loc(self, line=None):
        return "%s:%d" % (self.file, line or self.line)

    def term(self, b):
        return self.bbs[b][1]

    def stmts(self, b):
        return self.bbs[b][0]

    def succ(self, b=None):
        if self._succ is None:
            s = []
            for bb in self.bbs:
                if bb is None:
                    s.append(())
                    continue
                t = bb[1]
                k = t[0]
                if k == "goto":
                    s.append((t[1],))
                elif k == "switch":
                    x = [v[1] for v in t[2]] + [t[3]]
                    s.append(tuple(dict.fromkeys(x)))
                elif k == "drop":
                    s.append((t[2],))
                elif k == "call":
                    s.append((t[4],) if t[4] >= 0 else ())
                elif k == "assert":
                    s.append((t[4],))
                elif k == "asm":
                    s.append(tuple(t[1]))
                else:
                    s.append(())
            self._succ = s
        return self._succ if b is None else self._succ[b]

    def pred(self):
        if self._pred is None:
            p = [[] for _ in self.bbs]
            for i, ss in enumerate(self.succ()):
                for s in ss:
                    p[s].append(i)
            self._pred = p
        return self._pred

    def reachable(self, start=0, avoid=()):
        seen = set()
        st = [start]
        av = set(avoid)
        while st:
            b = st.pop()
            if b in seen or b in av:
                continue
            seen.add(b)
            st.extend(self.succ(b))
        return seen

    def rpo(self):
        seen = set()
        out = []
        stack = [(0, iter(self.succ(0)))]
        seen.add(0)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.succ(s))))
                    break
            else:
                out.append(b)
                stack.pop()
        return out[::-1]

    def idom(self):
        if self._dom is None:
            order = self.rpo()
            num = {b: i for i, b in enumerate(order)}
            idom = {0: 0}
            pred = self.pred()
            ch = True
            while ch:
                ch = False
                for b in order[1:]:
                    new = None
                    for p in pred[b]:
                        if p in idom:
                            if new is None:
                                new = p
                            else:
                                x, y = p, new
                                while x != y:
                                    while num[x] > num[y]:
                                        x = idom[x]
                                    while num[y] > num[x]:
                                        y = idom[y]
                                new = x
                    if new is not None and idom.get(b) != new:
                        idom[b] = new
                        ch = True
            self._dom = idom
        return self._dom

    def dominates(self, a, b):
        d = self.idom()
        if b not in d:
            return True
        while True:
            if a == b:
                return True
            if b == 0:
                return False
            b = d[b]

    def loops(self):
        """head -> set of blocks (natural loops)."""
        if self._loops is None:
            L = {}
            pred = self.pred()
            d = self.idom()
            for b, ss in enumerate(self.succ()):
                if b not in d:
                    continue
                for s in ss:
                    if self.dominates(s, b):
                        body = L.setdefault(s, {s})
                        st = [b]
                        while st:
                            x = st.pop()
                            if x in body:
                                continue
                            body.add(x)
                            st.extend(p for p in pred[x] if p in d)
            self._loops = L
        return self._loops

    def dbg_name(self, local):
        if self._dbgn is None:
            m = {}
            for n, pl in self.d["dbg"]:
                if len(pl) == 1:
                    m.setdefault(pl[0], n)
            self._dbgn = m
        return self._dbgn.get(local)

    # --- liveness of plain locals (address-taken ones are always live) ---
    def live(self):
        if self._live is not None:
            return self._live
        taken = set()
        use = [set() for _ in self.bbs]
        dfn = [set() for _ in self.bbs]

        def upl(pl, u, d):
            if pl[0] not in d:
                u.add(pl[0])
            for e in pl[1:]:
                if type(e) is list and e[0] == "i" and e[1] not in d:
                    u.add(e[1])

        def uop(o, u, d):
            if o[0] in ("p", "m"):
                upl(o[1], u, d)

        for i, bb in enumerate(self.bbs):
            if bb is None:
                continue
            u, d = use[i], dfn[i]
            for s in bb[0]:
                if s[0] == "=":
                    rv = s[2]
                    k = rv[0]
                    if k in ("ref", "raw"):
                        if "*" not in rv[2]:
                            taken.add(rv[2][0])
                        upl(rv[2], u, d)
                    elif k == "discr":
                        upl(rv[1], u, d)
                    elif k in ("use", "rep"):
                        uop(rv[1], u, d)
                    elif k == "cast":
                        uop(rv[2], u, d)
                    elif k == "bin":
                        uop(rv[2], u, d)
                        uop(rv[3], u, d)
                    elif k == "un":
                        uop(rv[2], u, d)
                    elif k == "agg":
                        for o in rv[3]:
                            uop(o, u, d)
                    if len(s[1]) == 1:
                        d.add(s[1][0])
                    else:
                        upl(s[1], u, d)
                elif s[0] == "sd":
                    upl(s[1], u, d)
                elif s[0] == "cpy":
                    for o in s[1:]:
                        uop(o, u, d)
                elif s[0] == "assume":
                    uop(s[1], u, d)
            t = bb[1]
            k = t[0]
            if k == "switch" or k == "assert":
                uop(t[1], u, d)
                if k == "assert":
                    for o in t[6]:
                        uop(o, u, d)
            elif k == "drop":
                upl(t[1], u, d)
            elif k == "call":
                uop(t[1], u, d)
                for o in t[2]:
                    uop(o, u, d)
                if len(t[3]) == 1:
                    d.add(t[3][0])
                else:
                    upl(t[3], u, d)
            elif k == "ret":
                if 0 not in d:
                    u.add(0)
        inn = [set(x) for x in use]
        ch = True
        order = self.rpo()[::-1]
        while ch:
            ch = False
            for b in order:
                o = set()
                for s in self.succ(b):
                    o |= inn[s]
                n = use[b] | (o - dfn[b])
                if n != inn[b]:
                    inn[b] = n
                    ch = True
        self._live = (inn, taken)
        return self._live

    def calls(self):
        """Yield (block, callee-record or None, args, dest, target, line)."""
        for i, bb in enumerate(self.bbs):
            if bb is None:
                continue
            t = bb[1]
            if t[0] == "call":
                f = t[1]
                yield i, (f[1] if f[0] == "fn" else None), t[2], t[3], t[4], t[5]

    def fn_operands(self):
        """Every function item mentioned as an operand (incl. callees)."""
        def walk(o):
            if o and o[0] == "fn":
                yield o[1]
        for bb in self.bbs:
            if bb is None:
                continue
            for s in bb[0]:
                if s[0] == "=":
                    rv = s[2]
                    if rv[0] in ("use", "rep"):
                        yield from walk(rv[1])
                    elif rv[0] == "cast":
                        yield from walk(rv[2])
                    elif rv[0] == "agg":
                        for o in rv[3]:
                            yield from walk(o)
            t = bb[1]
            if t[0] == "call":
                yield from walk(t[1])
                for o in t[2]:
                    yield from walk(o)


class Crate:
    def __init__(self, path):
        self.path = path
        self.fns = {}
        self.types = {}
        self.adts = {}
        self.consts = {}
        self.statics = {}
        self.impls = []
        self.foreign = {}
        self.hdr = None
        with open(path) as fh:
            for line in fh:
                d = json.loads(line)
                if "fn" in d:
                    f = Fn(d, self, None)
                    self.fns[f.key] = f
                elif "t" in d:
                    self.types[d["t"]] = d
                elif "adt" in d:
                    self.adts[d["adt"]] = d
                elif "const" in d:
                    self.consts[d["const"]] = d
                elif "static" in d:
                    self.statics[d["static"]] = d
                elif "impl" in d:
                    self.impls.append(d)
                elif "foreign" in d:
                    self.foreign[d["foreign"]] = d
                elif "crate" in d:
                    self.hdr = d
        self.byname = {}
        for f in self.fns.values():
            self.byname.setdefault(f.nname, []).append(f)
        self._impl_ix = None
        self._cg = None

    # ---- lookup ----
    def find(self, suffix, ext=False):
        """All functions whose normalised path is/ends with ::suffix."""
        r = []
        for n, fs in self.byname.items():
            if n == suffix or n.endswith("::" + suffix):
                r.extend(f for f in fs if ext or not f.is_ext)
        return r

    def find1(self, suffix):
        r = self.find(suffix)
        if len(r) != 1:
            raise KeyError("%d functions named %s" % (len(r), suffix))
        return r[0]

    def adt(self, suffix):
        for n, a in self.adts.items():
            if n == suffix or n.endswith("::" + suffix):
                return a
        raise KeyError("no type " + suffix)

    def const(self, suffix):
        for tab in (self.consts, self.statics):
            for n, a in tab.items():
                nn = norm(n)
                if nn == suffix or nn.endswith("::" + suffix):
                    return a
        raise KeyError("no const " + suffix)

    def ty(self, tid):
        return self.types[tid]

    def tystr(self, tid):
        return self.types[tid]["s"]

    def strip_ref(self, tid):
        t = self.types[tid]
        while t["k"] in ("ref", "ptr"):
            t = self.types[t["e"]]
        return t

    # ---- trait dispatch ----
    def impl_index(self):
        if self._impl_ix is None:
            ix = {}
            for im in self.impls:
                if "trait" in im:
                    for nm, key, tn in im["items"]:
                        if tn:
                            ix.setdefault(tn, []).append((im["self"], key))
            self._impl_ix = ix
        return self._impl_ix

    def impls_of(self, trait_item):
        """[(self type id, fn key)] of local impls of a trait method."""
        return self.impl_index().get(trait_item, [])

    def callees(self, rec):
        """Local function keys a callee record may dispatch to."""
        k = rec.get("rkey") or rec["key"]
        if k in self.fns and rec.get("ik") != "unresolved" \
                and rec.get("ik") != "virtual":
            return [k]
        r = [x for _, x in self.impls_of(rec["p"]) if x in self.fns]
        if not r:
            r = [x for _, x in self.impls_of(norm(rec["p"])) if x in self.fns]
        if k in self.fns:
            r.append(k)
        return r

    def callgraph(self):
        """key -> set(keys): calls, function items taken, closures created."""
        if self._cg is None:
            g = {}
            for f in self.fns.values():
                s = set()
                for rec in f.fn_operands():
                    s.update(self.callees(rec))
                for bb in f.bbs:
                    if bb is None:
                        continue
                    for st in bb[0]:
                        if st[0] == "=" and st[2][0] == "agg" \
                                and st[2][1] == "closure":
                            if st[2][2] in self.fns:
                                s.add(st[2][2])
                g[f.key] = s
            self._cg = g
        return self._cg

    def reach(self, roots, stop=()):
        g = self.callgraph()
        seen = {}
        st = [(r, None) for r in roots]
        while st:
            k, p = st.pop()
            if k in seen or k in stop:
                continue
            seen[k] = p
            for c in g.get(k, ()):
                if c not in seen:
                    st.append((c, k))
        return seen

    def callers(self):
        r = {}
        for k, s in self.callgraph().items():
            for c in s:
                r.setdefault(c, set()).add(k)
        return r


def load(dirpath):
    return {c: Crate(os.path.join(dirpath, c + ".jsonl"))
            for c in ("rav1e.lib", "rav1e.bin", "rav1e_ch.bin", "ivf.lib")}

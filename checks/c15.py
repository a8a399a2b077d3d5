"""C15 - the output depends on nothing but configuration and input."""
import re
from sa.query import place_ty

RULE = """
Whole-crate effect analysis on MIR.  (1) Every call to, and every mention of,
a function outside the crate is classified by its resolved path: a pure
library module, a thread-structuring or channel operation with schedule
independent results, or an ambient source (clock, environment, file system,
process, thread identity, worker count, random or hashed iteration order,
atomics, cells, pointer formatting) - the last only at listed modules whose
result cannot reach coded data.  Unclassified crates or modules are reported.
(2) Statics are immutable and free of interior mutability, except the C
version string.  (3) The thread count reaches nothing but pool construction;
the polling operations of channels are only called by the public handles.
(4) Closures run by parallel iterators (and everything they reach) neither
send on channels nor take write locks, and parallel results are collected only
by order preserving terminals.  (5) The CPU feature level is inspected only in
the dispatch modules.  (6) Pointers become integers only in the probability
log, as the difference to the table base.
"""
ASSUME = ["external crates behave as documented (rayon's unzip/map keep order)",
          "assembly and native kernels agree (declared not applicable)",
          "uninitialised memory is never read (not decided here)"]

PURE = re.compile(r"""^(
 core::(any|array|ascii|borrow|cell::OnceCell|char|clone|cmp|convert|core_arch
        |default|error|ffi|fmt|hint|io|iter|marker|mem|net|num|ops|option
        |panic|panicking|pin|ptr|range|result|slice|str|tuple|unicode|bool
        |intrinsics|f32|f64|alloc)\b
|alloc::(alloc|borrow|boxed|ffi|fmt|io|rc|rcs|raw_vec|slice|str|string|sync
        |vec|collections::(btree|vec_deque|binary_heap|linked_list))
|std::(f32|f64|path|panic|panicking|error|ffi|ascii|num|alloc)\b
|std::io::(cursor|error|impls|Write|Read|Cursor|Error|buffered|util|copy)
|aligned_vec|arrayvec|bitstream_io|itertools|num_rational|num_traits
|num_integer|num_derive|num_bigint|v_frame|scan_fmt|serde|serde_big_array
|thiserror|anyhow|paste|bitflags|cfg_if|const_fn_assert|profiling|simd_helpers
|either|ivf|crossbeam_channel::err|av_scenechange|y4m
|core::sync::atomic::(fence|compiler_fence)
|rav1e::(api|asm|ec|transform|[a-z_0-9]+)(::|$)
)""", re.X)
# schedule-independent structure
PARALLEL_OK = re.compile(
    r"(ThreadPool(Builder)?(::<.*>)?::(new|num_threads|build|install|spawn"
    r"|spawn_fifo|scope|scope_fifo|join)|::(scope|scope_fifo|spawn|spawn_fifo"
    r"|join)$|Scope(Fifo)?::<.*>::(spawn|spawn_fifo)"
    r"|IntoParallel(Iterator|RefIterator|RefMutIterator)::"
    r"(into_par_iter|par_iter|par_iter_mut)"
    r"|IndexedParallelIterator::(enumerate|zip|zip_eq|rev|chunks|collect_into_vec"
    r"|unzip_into_vecs|take|skip|with_min_len|with_max_len|step_by)"
    r"|ParallelIterator::(for_each|map|unzip|collect|filter|filter_map|cloned"
    r"|copied|flat_map_iter|all|any|count|max|min)"
    r"|ParallelSlice(Mut)?::par_(chunks|chunks_exact|chunks_mut|windows"
    r"|chunks_exact_mut))")
CHANNEL_OK = re.compile(
    r"(Receiver(::<.*>)?::(recv|iter|into_iter)|Sender(::<.*>)?::send"
    r"|::(bounded|unbounded)$|Clone::clone|Iterator::next|IntoIterator"
    r"|iter::Iterator::|FusedIterator)")
CHANNEL_POLL = re.compile(r"(Receiver|Sender)(::<.*>)?::"
                          r"(is_empty|is_full|len|capacity|try_recv|try_send|try_iter)")
# ambient sources: pattern on the path -> modules that may use them, and why
AMBIENT = [
    (r"^std::env::(var|var_os|current_dir)", ("cpu_features",
     "api::internal::ContextInner::build_dump_properties"), "env"),
    (r"^std::fs::create_dir_all",
     ("api::internal::ContextInner::build_dump_properties",), "fs"),
    (r"std_detect::detect", ("cpu_features",), "cpu"),
    (r"^std::io::_e?print", ("context::FieldMap", "context::", "ec::"),
     "debug print"),
    (r"^(std|core|alloc)::sync::OnceLock", ("capi::",), "once"),
    (r"^log::", ("",), "logging"),
]
SHARED_WRITE = re.compile(
    r"(RwLock::<.*>::(write|try_write)|crossbeam_channel::.*(send|try_send))")


def terms(f):
    for b, cal, args, dest, tgt, line in f.calls():
        yield cal, line, True
    for cal in f.fn_operands():
        yield cal, f.line, False


def run(ctx):
    c = ctx.lib
    fns = [f for f in c.fns.values() if not f.is_ext
           and not f.key.startswith(("core::", "alloc::", "std::"))]
    ctx.floor("functions", len(fns), 1500)
    n_ext = 0
    rw = 0
    par_hosts = set()
    callers = c.callers()
    for f in fns:
        ctx.saw(f)
        for cal, line, is_call in terms(f):
            if cal is None:
                continue
            key = cal.get("rkey") or cal["key"]
            if key in c.fns and not c.fns[key].is_ext and \
                    key.startswith("rav1e"):
                continue
            n_ext += 1
            p, w = cal["p"], f.loc(line)
            if "fmt::Pointer" in p or "Argument::<'_>::new_pointer" in p or \
                    "new_pointer" in p:
                ctx.ob(False, "pointer-format:" + f.nname,
                       "an address is formatted in %s" % f.nname, w)
                continue
            if re.search(r"::(addr|expose_provenance|align_offset|"
                         r"is_aligned|align_to|align_to_mut)$", p) and \
                    re.match(r"core::(ptr|slice)", key) and \
                    not f.nname.startswith("asm::"):
                ctx.ob(False, "address:" + f.nname,
                       "%s reads an address (%s)" % (f.nname, p), w)
                continue
            if re.search(r"^(maybe_rayon|rayon|rayon_core)\b", p) or \
                    re.match(r"(rayon|rayon_core|maybe_rayon)\b", key):
                ok = PARALLEL_OK.search(p)
                ctx.ob(ok, "parallel-op:%s:%s" % (f.nname, p.split("::")[-1]),
                       "%s uses %s, whose result may depend on the thread "
                       "pool or its schedule" % (f.nname, p), w)
                if re.search(r"ParallelIterator::", p):
                    par_hosts.add(f.key)
                continue
            if key.startswith("crossbeam_channel"):
                if CHANNEL_POLL.search(p):
                    ok = f.nname.startswith("api::channel::data::")
                    ctx.ob(ok, "channel-poll:" + f.nname,
                           "%s polls a channel (%s): what it sees depends on "
                           "the schedule" % (f.nname, p), w)
                else:
                    ctx.ob(CHANNEL_OK.search(p) or PURE.match(key),
                           "channel-op:%s:%s" % (f.nname, p.split("::")[-1]),
                           "%s uses %s, not known to be independent of the "
                           "schedule" % (f.nname, p), w)
                continue
            if re.search(r"RwLock.*::(read|write|new|into_inner|get_mut)$", p) or \
                    "RwLock" in p or "PoisonError" in p:
                rw += 1
                if re.search(r"::(try_read|try_write)$", p):
                    ctx.ob(False, "trylock:" + f.nname,
                           "%s tries a lock: the outcome depends on the "
                           "schedule" % f.nname, w)
                continue
            hit = [(mods, why) for pat, mods, why in AMBIENT
                   if re.search(pat, p) or re.search(pat, key)]
            if hit:
                ok = any(f.nname.lstrip("<").startswith(m) or m in f.nname
                         for mods, _ in hit for m in mods)
                ctx.ob(ok, "ambient:%s:%s" % (f.nname, p.split("::")[-1]),
                       "%s reads or writes the environment of the process "
                       "(%s)" % (f.nname, p), w)
                continue
            if re.search(r"hash::random|RandomState|HashMap|HashSet|"
                         r"hash_map|hash_set|DefaultHasher", p + key):
                ctx.ob(False, "hash-order:" + f.nname,
                       "%s uses a hashed collection or hasher (%s)" %
                       (f.nname, p), w)
                continue
            if re.match(r"std::(clone|default|iter|ops|cmp|convert|fmt)::", p) \
                    and re.match(r"(std::sync|alloc::sync|crossbeam)", key):
                continue
            ctx.ob(PURE.match(key), "unclassified:%s:%s" %
                   (f.nname, "::".join(key.split("::")[:3])),
                   "%s calls %s (%s), which is not known to be a function of "
                   "its arguments" % (f.nname, p, key), w)
    ctx.floor("external calls", n_ext, 4000)
    ctx.floor("lock operations", rw, 1)

    # dump helpers must stay unreachable from encoding
    for name in ("build_dump_properties",):
        for f in c.find(name):
            ctx.ob(not callers.get(f.key), "env-reader:" + f.nname,
                   "%s, which reads the environment and writes directories, "
                   "is called by %s" % (f.nname, [c.fns[k].nname for k in
                                                  callers.get(f.key, ())]),
                   f.loc())
    # values derived from the environment only become the CPU level
    for f in fns:
        if f.nname.lstrip("<").startswith("cpu_features") and \
                any(cal and cal["p"].startswith("std::env")
                    for _, cal, *_ in f.calls()):
            rt = c.tystr(f.locals[0])
            ctx.ob("CpuFeatureLevel" in rt, "env-return:" + f.nname,
                   "%s reads the environment and returns %s" %
                   (f.nname, rt), f.loc())

    # interior mutability in types the crate's own functions handle
    bad = re.compile(r"(Mutex|RefCell|atomic::Atomic|cell::Cell|LocalKey|"
                     r"std::time::|HashMap|HashSet|ThreadId|RandomState)")
    nl = 0
    for f in fns:
        for t in set(f.locals):
            s = c.tystr(t)
            nl += 1
            if bad.search(s) and not s.startswith("crossbeam"):
                ctx.ob(False, "cell-type:%s:%s" % (f.nname, bad.search(s)[1]),
                       "%s handles a value of type %s: shared mutable state, "
                       "a clock or a hashed collection" % (f.nname, s[:120]),
                       f.loc())
            else:
                ctx.obls += 1
    # statics
    ns = 0
    for n, d in c.statics.items():
        ns += 1
        ok = not d["mut"] and d.get("freeze")
        if not ok and n.split("::")[0] in ("capi", "rav1e") and \
                "OnceLock" in c.tystr(d["ty"]) if "ty" in d else False:
            ok = True
        ctx.ob(ok or n == "capi::FULL_VERSION_C", "static:" + n,
               "the static %s can change while encoding: one encode could "
               "influence another" % n, n)
    ctx.floor("statics", ns, 60)

    # thread count
    nt = 0
    for f in fns:
        for loc, line, use in field_reads(c, f, "Config", "threads"):
            nt += 1
            ok = pure_flow(c, f, loc)
            if "Clone>::clone" in f.nname or "Debug>::fmt" in f.nname or \
                    "Default" in f.nname:
                ok = True
            ctx.ob(ok, "threads:" + f.nname,
                   "%s uses the configured thread count for something other "
                   "than building a thread pool" % f.nname, f.loc(line))
    ctx.floor("thread count reads", nt, 1)

    # closures of parallel iterators
    np = 0
    for k in par_hosts:
        f = c.fns[k]
        kids = [x for x in c.fns.values()
                if x.is_closure and x.nname.startswith(f.nname + "::{closure")]
        for r in c.reach([x.key for x in kids]):
            g = c.fns.get(r)
            if g is None:
                continue
            np += 1
            for cal, line, _ in terms(g):
                if cal and SHARED_WRITE.search(cal["p"]):
                    ctx.ob(False, "parallel-write:%s:%s" % (f.nname, g.nname),
                           "work run in parallel from %s reaches %s, which "
                           "publishes results by %s: their order depends on "
                           "the schedule" % (f.nname, g.nname, cal["p"]),
                           g.loc(line))
                else:
                    ctx.obls += 1
    ctx.floor("parallel hosts", len(par_hosts), 1)
    ctx.floor("functions run in parallel", np, 200)

    # CPU feature level
    ncpu = 0
    for f in fns:
        if re.match(r"<?(asm|cpu_features)::", f.nname):
            continue
        if "CpuFeatureLevel as" in f.nname:
            continue
        for b, cal, args, dest, tgt, line in f.calls():
            if cal and "CpuFeatureLevel" in cal["p"] and \
                    "::clone" not in cal["p"] and "default" not in cal["p"]:
                ctx.ob(False, "cpu-level:" + f.nname,
                       "%s inspects the CPU feature level (%s) outside the "
                       "dispatch modules" % (f.nname, cal["p"]), f.loc(line))
        for bb in f.bbs:
            if bb is None:
                continue
            for s in bb[0]:
                if s[0] == "=" and (s[2][0] == "discr" or (
                        s[2][0] == "cast" and s[2][1] in
                        ("IntToInt", "Transmute"))):
                    pl = s[2][1] if s[2][0] == "discr" else (
                        s[2][2][1] if s[2][2][0] in ("m", "p", "c", "copy")
                        else None)
                    if not pl or isinstance(pl, int):
                        continue
                    try:
                        t = place_ty(c, f, pl)
                    except Exception:
                        t = None
                    if t is None:
                        continue
                    ncpu += 1
                    ctx.ob("CpuFeatureLevel" not in c.tystr(t),
                           "cpu-level:" + f.nname,
                           "%s branches on the CPU feature level outside the "
                           "dispatch modules" % f.nname, f.loc(s[3]))
    ctx.floor("inspected discriminants and casts", ncpu, 300)

    # addresses
    na = 0
    live = c.reach([k for k, f in c.fns.items()
                    if re.search(r"(receive_packet|send_frame|"
                                 r"rc_receive_pass_data|Config>?::new_context|"
                                 r"capi::rav1e_)", f.nname)])
    for f in fns:
        for bi, bb in enumerate(f.bbs):
            if bb is None:
                continue
            for s in bb[0]:
                if s[0] != "=" or s[2][0] != "cast":
                    continue
                kind = str(s[2][1])
                if "Expose" in kind:
                    na += 1
                    ok = f.key not in live or only_subtracted(f, s[1])
                    ctx.ob(ok, "address:" + f.nname,
                           "%s turns a pointer into a number that is not "
                           "merely an offset within one object" % f.nname,
                           f.loc(s[3]))
                elif kind == "Transmute":
                    o = s[2][2]
                    if o[0] in ("m", "p", "c") and isinstance(o[1], list):
                        t0 = place_ty(c, f, o[1])
                        if t0 is not None and c.types[t0]["k"] in \
                                ("ref", "ptr", "fnptr") and \
                                c.tystr(s[2][3]) in ("usize", "u64", "isize",
                                                     "i64"):
                            ctx.ob(False, "address:" + f.nname,
                                   "%s transmutes a pointer to a number" %
                                   f.nname, f.loc(s[3]))
    ctx.floor("pointer to number casts", na, 2)


def only_subtracted(f, dst):
    """Every use of the number is a subtraction whose other side is one too."""
    if len(dst) != 1:
        return False
    exposed = set()
    for bb in f.bbs:
        if bb is None:
            continue
        for s in bb[0]:
            if s[0] == "=" and s[2][0] == "cast" and "Expose" in str(s[2][1]) \
                    and len(s[1]) == 1:
                exposed.add(s[1][0])
    ch = True
    while ch:                           # plain copies of them
        ch = False
        for bb in f.bbs:
            if bb is None:
                continue
            for s in bb[0]:
                if s[0] == "=" and s[2][0] == "use" and \
                        s[2][1][0] in ("m", "p", "c") and \
                        isinstance(s[2][1][1], list) and \
                        len(s[2][1][1]) == 1 and s[2][1][1][0] in exposed \
                        and len(s[1]) == 1 and s[1][0] not in exposed:
                    exposed.add(s[1][0])
                    ch = True
    def is_exp(o):
        return o[0] in ("m", "p", "c") and isinstance(o[1], list) and \
            len(o[1]) == 1 and o[1][0] in exposed
    def mention(x):
        if isinstance(x, list):
            if x and x[0] in ("m", "p", "c") and is_exp(x):
                return True
            return any(mention(y) for y in x)
        return False
    for bb in f.bbs:
        if bb is None:
            continue
        for s in bb[0]:
            if s[0] != "=":
                continue
            rv = s[2]
            if rv[0] == "use" or (rv[0] == "cast" and "Expose" in str(rv[1])):
                continue
            if rv[0] in ("bin", "binop", "cbin") and "Sub" in str(rv[1]):
                a, b = rv[2], rv[3]
                if is_exp(a) == is_exp(b):
                    continue
                return False
            if mention(rv):
                return False
        t = bb[1]
        if t[0] == "call" and any(mention(a) for a in t[2]):
            n = t[1][1]["p"] if t[1][0] == "fn" else ""
            if re.search(r"::(wrapping_sub|checked_sub|sub)$", n) and \
                    all(is_exp(a) for a in t[2]):
                continue
            return False
        if t[0] == "assert":
            continue
        if t[0] in ("switch",) and mention(t[1]):
            return False
    return 0 not in exposed


def field_reads(c, f, adt, field):
    """(destination local, line, rvalue) of every read of ADT.field."""
    want = "." + field
    for bb in f.bbs:
        if bb is None:
            continue
        for s in bb[0]:
            if s[0] != "=":
                continue
            rv = s[2]
            for pl in places(rv):
                for i, e in enumerate(pl):
                    if e == want and i:
                        t = place_ty(c, f, pl[:i])
                        if t is not None and c.types[t]["k"] == "adt" and \
                                c.types[t].get("p", "").endswith("::" + adt):
                            yield s[1], s[3], rv
        t = bb[1]
        if t[0] == "call":
            for a in t[2]:
                for pl in places(a):
                    for i, e in enumerate(pl):
                        if e == want and i:
                            ty = place_ty(c, f, pl[:i])
                            if ty is not None and \
                                    c.types[ty]["k"] == "adt" and \
                                    c.types[ty].get("p", "").endswith(
                                        "::" + adt):
                                yield (None, t[1]), t[5], None


def places(x):
    if isinstance(x, list):
        if x and isinstance(x[0], int) and len(x) > 1 and \
                all(isinstance(e, (str, int, list)) for e in x) and \
                any(isinstance(e, str) for e in x[1:]):
            yield x
        for y in x:
            yield from places(y)


def pure_flow(c, f, loc):
    """The local only feeds comparisons with constants and pool builders."""
    if isinstance(loc, tuple):
        fn = loc[1]
        return fn[0] == "fn" and "ThreadPoolBuilder" in fn[1]["p"]
    if len(loc) != 1:
        return False
    seen = set()
    st = [loc[0]]
    def uses(o, l):
        return any(True for _ in mentions(o, l))
    while st:
        l = st.pop()
        if l in seen:
            continue
        seen.add(l)
        if l == 0:
            # returned: every caller must be a pool constructor
            if not re.search(r"thread|pool", f.nname):
                return False
            continue
        for bb in f.bbs:
            if bb is None:
                continue
            for s in bb[0]:
                if s[0] == "=" and uses(s[2], l):
                    if len(s[1]) != 1:
                        return False
                    st.append(s[1][0])
            t = bb[1]
            if t[0] == "call" and any(uses(a, l) for a in t[2]):
                n = t[1][1]["p"] if t[1][0] == "fn" else ""
                if "ThreadPoolBuilder" in n:
                    continue
                if re.search(r"(fmt::rt|Argument|log::|cmp::|::clone$)", n):
                    st.append(t[3][0])
                    continue
                return False
            if t[0] == "switch" and uses(t[1], l):
                # branching on it is only for pool construction
                if not re.search(r"thread|pool", f.nname):
                    return False
    return True


def mentions(x, l):
    if isinstance(x, list):
        if x and x[0] in ("m", "p", "c") and len(x) > 1 and \
                isinstance(x[1], list) and x[1] and x[1][0] == l:
            yield True
        elif x and x[0] in ("ref", "raw") and isinstance(x[-1], list) and \
                x[-1] and x[-1][0] == l:
            yield True
        else:
            for y in x:
                yield from mentions(y, l)

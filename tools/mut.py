#!/usr/bin/env python3
"""mut.py [-j N] [-p props] [filter...]: apply each listed source mutant to a
private copy of /repo (bind-mounted in a user namespace), run the check there.
kind "bug" must be reported, kind "same" must stay quiet.  -p C01,C02 runs
those checks instead of the mutant's own.  A development tool; no check uses
it."""
import subprocess, sys, os, re, shutil, threading, queue
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = []


def m(check, kind, file, *edits):
    M.append((check, kind, file, edits))


exec(open(os.path.join(V, "tools", "mutants.py")).read())
sel = sys.argv[1:]
J = 4
props = None
if "-j" in sel:
    i = sel.index("-j"); J = int(sel[i + 1]); del sel[i:i + 2]
if "-p" in sel:
    i = sel.index("-p"); props = sel[i + 1].split(","); del sel[i:i + 2]
if subprocess.check_output(["git", "-C", "/repo", "status", "--short"]):
    sys.exit("dirty /repo")
jobs = queue.Queue()
n = 0
for i, (c, k, f, ed) in enumerate(M):
    if sel and not any(s == c or s == k or s == "%s.%d" % (c, i) for s in sel):
        continue
    if k == "bug" and "same" in sel:
        continue
    jobs.put((i, c, k, f, ed)); n += 1
J = min(J, max(1, n))
BASE = "/tmp/mutw"
bad = [0]
lk = threading.Lock()


def worker(w):
    d = "%s/%d" % (BASE, w)
    subprocess.run(["rm", "-rf", d])
    os.makedirs(d)
    subprocess.run(["cp", "-a", V, d + "/verif"], check=True)
    subprocess.run("mkdir %s/repo && cd /repo && tar cf - --exclude=./target . "
                   "| tar xf - -C %s/repo" % (d, d), shell=True, check=True)
    while True:
        try:
            i, c, k, f, ed = jobs.get_nowait()
        except queue.Empty:
            break
        p = d + "/repo/" + f
        src = t = open(p).read()
        msg = ""
        for o, nn in zip(ed[::2], ed[1::2]):
            if t.count(o) != 1:
                msg = "PATTERN %d times: %s" % (t.count(o), o[:50])
            t = t.replace(o, nn, 1)
        if msg:
            with lk:
                print("%s.%d %s" % (c, i, msg), flush=True); bad[0] += 1
            continue
        try:
            open(p, "w").write(t)
            for cc in props or [c]:
                r = subprocess.run(
                    ["unshare", "-Urm", "sh", "-c",
                     "mount --bind %s/repo /repo && mount --bind %s/verif "
                     "/verif && cd /verif && exec env VERIF_JOBS=1 timeout 850 python3 "
                     "check.py %s" % (d, d, cc)], capture_output=True,
                    text=True)
                vs = [l for l in r.stdout.splitlines()
                      if l.startswith("VIOLATION")]
                okk = (r.returncode == 1) == (k == "bug") and \
                    r.returncode in (0, 1) and "key=build" not in r.stdout
                with lk:
                    bad[0] += not okk
                    print("%s%s.%d %-4s %s %s" % (
                        cc + "@" if props else "", c, i, k,
                        "ok" if okk else "**MISS**" if k == "bug" else
                        "**ALARM**", ed[1].strip().replace("\n", " ")[:60] +
                        " => " + (re.sub(r".*key=", "", vs[0])[:110] if vs
                                  else "quiet")), flush=True)
        finally:
            open(p, "w").write(src)
    subprocess.run(["rm", "-rf", d])


ts = [threading.Thread(target=worker, args=(w,)) for w in range(J)]
[t.start() for t in ts]
[t.join() for t in ts]
print(bad[0], "unexpected of", n)

"""Build the MIR dump of /repo's current working tree (type-check only)."""
import fcntl, hashlib, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")
FEATURES = ("binaries,asm,threading,signal_support,capi,serialize,"
            "channel-api,unstable")
CRATES = ("rav1e.lib", "rav1e.bin", "rav1e_ch.bin", "ivf.lib")
SKIP_DIRS = {"target", ".git", "node_modules"}


def tree_hash(repo=REPO):
    """Content hash of every source file that can influence the build."""
    h = hashlib.sha256()
    files = []
    for d, dirs, fs in os.walk(repo):
        dirs[:] = sorted(x for x in dirs if x not in SKIP_DIRS)
        for f in sorted(fs):
            if f.endswith((".rs", ".toml", ".lock", ".asm", ".S", ".h")):
                files.append(os.path.join(d, f))
    for p in files:
        h.update(os.path.relpath(p, repo).encode() + b"\0")
        with open(p, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    for p in ("driver/src/main.rs", "driver/src/dump.rs", "driver/src/json.rs"):
        with open(os.path.join(VERIF, p), "rb") as fh:
            h.update(fh.read())
    h.update(FEATURES.encode())
    return h.hexdigest()[:24]


def _env():
    env = dict(os.environ)
    sr = subprocess.check_output(
        ["rustc", "+nightly", "--print", "sysroot"], text=True).strip()
    env["LD_LIBRARY_PATH"] = sr + "/lib"
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER",
              "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET_DIR", "RUSTUP_TOOLCHAIN",
              "RUSTC", "CARGO_BUILD_TARGET"):
        env.pop(k, None)
    return env


def build_driver():
    tgt = os.path.join(CACHE, "driver")
    env = _env()
    env.pop("LD_LIBRARY_PATH")
    r = subprocess.run(
        ["cargo", "+nightly", "build", "--release", "--offline",
         "--target-dir", tgt], cwd=os.path.join(VERIF, "driver"), env=env,
        stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise RuntimeError("driver build failed:\n" + r.stdout[-4000:])
    return os.path.join(tgt, "release", "mirdump")


class BuildError(Exception):
    pass


def ensure_dump(repo=REPO):
    """Return (dir with the dumps, info dict)."""
    os.makedirs(CACHE, exist_ok=True)
    t0 = time.time()
    with open(os.path.join(CACHE, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        h = tree_hash(repo)
        out = os.path.join(CACHE, "dump", h)
        if os.path.exists(os.path.join(out, "done")):
            return out, {"tree": h, "cached": True, "build_s": 0.0}
        drv = build_driver()
        base = os.path.join(CACHE, "dump")
        if os.path.isdir(base):
            for d in sorted(os.listdir(base), key=lambda x: os.path.getmtime(
                    os.path.join(base, x)))[:-4]:
                shutil.rmtree(os.path.join(base, d), ignore_errors=True)
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        # without fingerprints cargo compiles (and so dumps) the workspace again
        rel = os.path.join(CACHE, "target", "release")
        for sub in (".fingerprint", "build", "deps", "incremental"):
            fp = os.path.join(rel, sub)
            for d in os.listdir(fp) if os.path.isdir(fp) else ():
                if d.split("-", 1)[0] in ("rav1e", "rav1e_ch", "ivf"):
                    shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
        env = _env()
        env["PATH"] = os.path.join(VERIF, "sa", "stubbin") + ":" + env["PATH"]
        env["MIRDUMP_OUT"] = out
        env["MIRDUMP_CRATES"] = "rav1e:rav1e_ch:ivf"
        env["RUSTC_WORKSPACE_WRAPPER"] = drv
        cmd = ["cargo", "+nightly", "check", "--release", "--offline",
               "--locked", "--workspace", "--lib", "--bins",
               "--no-default-features", "--features", FEATURES,
               "--target-dir", os.path.join(CACHE, "target")]
        r = subprocess.run(cmd, cwd=repo, env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise BuildError("type check of %s failed:\n%s" %
                             (repo, r.stdout[-6000:]))
        for c in CRATES:
            p = os.path.join(out, c + ".jsonl")
            if not os.path.exists(p):
                raise BuildError("no dump written for " + c)
            with open(p, "rb") as fh:
                fh.seek(-16, 2)
                if b'{"end":true}' not in fh.read():
                    raise BuildError("truncated dump for " + c)
        open(os.path.join(out, "done"), "w").write(h)
        return out, {"tree": h, "cached": False,
                     "build_s": round(time.time() - t0, 1)}


if __name__ == "__main__":
    d, i = ensure_dump()
    print(d, i)

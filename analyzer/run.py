"""Runs the analyser on /repo's current source in one or more configurations (no code of /repo is executed)."""
import json, os, subprocess, sys, time, tomllib, hashlib, fcntl
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(ROOT, ".build")
DRIVER = os.path.join(ROOT, "analyzer/target/release/vpdriver")

# name, features, debug assertions, quick
CONFIGS = [
    ("std-debug", ["std"], True),
    ("nostd-release", [], False),
    ("all-debug", ["std", "logs", "serde-traits", "diesel-traits"], True),
    ("all-release", ["std", "logs", "serde-traits", "diesel-traits", "no-panic"], False),
    ("std-release", ["std"], False),
    ("nostd-debug", [], True),
    ("logs-release", ["std", "logs"], False),
    ("serde-debug", ["serde-traits"], True),
    ("diesel-debug", ["diesel-traits"], True),
]
QUICK = ["std-debug", "nostd-release", "all-debug", "all-release"]


def every_config():
    """all combinations of features and profiles"""
    feats = ["std", "logs", "serde-traits", "diesel-traits", "no-panic"]
    out = []
    for dbg in (True, False):
        for m in range(1 << len(feats)):
            fs = [f for i, f in enumerate(feats) if m >> i & 1]
            out.append(("+".join(fs or ["none"]) + ("-debug" if dbg else "-release"), fs, dbg))
    return out


def env():
    e = dict(os.environ)
    e["HOME"] = e.get("HOME", "/root")
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e["CARGO_NET_OFFLINE"] = "true"
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "CARGO_TARGET_DIR", "RUSTUP_TOOLCHAIN", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    return e


def sh(cmd, extra=None, **kw):
    return subprocess.run(cmd, env=dict(env(), **(extra or {})), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def setup():
    """Builds the analyser and compiles the optional dependencies with its compiler (both are no-ops when done)."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        r = sh(["cargo", "+nightly", "build", "--release", "--offline", "--target-dir", os.path.join(ROOT, "analyzer/target")], cwd=os.path.join(ROOT, "analyzer"))
        if r.returncode:
            sys.exit("analyser does not build:\n" + r.stderr[-4000:])
        r = sh(["cargo", "+nightly", "check", "--offline", "--locked", "--message-format=json", "--target-dir", os.path.join(BUILD, "deps")], cwd=os.path.join(ROOT, "deps"), extra={"RUSTFLAGS": "-Zalways-encode-mir"})
        if r.returncode:
            sys.exit("dependencies do not build:\n" + r.stderr[-4000:])
        ext, dirs = {}, set()
        for l in r.stdout.splitlines():
            d = json.loads(l)
            if d.get("reason") != "compiler-artifact" or not set(d["target"]["kind"]) & {"lib", "proc-macro"}:
                continue
            for f in d["filenames"]:
                if f.endswith((".rmeta", ".so")):
                    ext[d["target"]["name"].replace("-", "_")] = f
                    dirs.add(os.path.dirname(f))
        return ext, sorted(dirs)


def sysroot():
    return sh(["rustc", "+nightly", "--print", "sysroot"]).stdout.strip()


def manifest():
    with open(os.path.join(REPO, "Cargo.toml"), "rb") as f:
        m = tomllib.load(f)
    return m.get("package", {}).get("edition", "2015"), os.path.join(REPO, m.get("lib", {}).get("path", "src/lib.rs"))


def run_one(cfg, shard, deps, sr, out, secs, only=None, verbose=False, prop=None, log_panics=False, total=400, timeout=800):
    name, feats, dbg = cfg
    edition, lib = manifest()
    ext, dirs = deps
    args = [DRIVER, "rustc", lib, "--crate-name", "arraystring", "--crate-type", "lib", "--edition", edition, "--sysroot", sr, "-Awarnings", "-Zmir-opt-level=0"]
    yn = "on" if dbg else "off"
    args += ["-Cdebug-assertions=" + yn, "-Coverflow-checks=" + yn]
    m = {"logs": ["log"], "serde-traits": ["serde"], "diesel-traits": ["diesel"], "no-panic": ["no_panic"]}
    for f in feats:
        args += ["--cfg", 'feature="%s"' % f]
        alias = {"logs": "log", "serde-traits": "serde", "diesel-traits": "diesel"}.get(f)
        if alias:
            args += ["--cfg", 'feature="%s"' % alias]
        for d in m.get(f, []):
            args += ["--extern", "%s=%s" % (d, ext[d])]
    if "std" in feats:
        args += ["--cfg", 'feature="default"']
    if any(f in m for f in feats):
        for d in dirs:
            args += ["-L", "dependency=" + d]
    e = env()
    e.update(RUST_MIN_STACK=str(1 << 30), LD_LIBRARY_PATH=sr + "/lib", AS_OUT=out, AS_SECS=str(secs), AS_SHARD="%d/%d" % shard)
    e.pop("AS_LOGPANIC", None)
    if log_panics:
        e["AS_LOGPANIC"] = "1"
        e["AS_FUEL"] = "20000000"
    if prop:
        e["AS_PROP"] = prop
    e["AS_TOTAL"] = str(total)
    if only:
        e["AS_ONLY"] = only
    if verbose:
        e["AS_VERBOSE"] = "1"
    if os.path.exists(out):
        os.unlink(out)
    r = subprocess.run(args, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=BUILD, timeout=timeout)
    rep = None
    if os.path.exists(out):
        try:
            with open(out) as f:
                rep = json.load(f)
        except ValueError:
            pass
    return rep, r

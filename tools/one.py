#!/usr/bin/env python3
"""one.py [-r REFACTOR | -p PATCH] [-c CONFIG] [-s] ENTRY: analyses the entries whose label contains ENTRY, verbosely (development aid)."""
import argparse, json, os, shutil, subprocess, sys, tempfile
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [R, R + "/analyzer", R + "/tools"]; sys.dont_write_bytecode = True
import run
ap = argparse.ArgumentParser()
ap.add_argument("-r"); ap.add_argument("-p"); ap.add_argument("-c", default="std-debug"); ap.add_argument("-s", action="store_true"); ap.add_argument("-q", action="store_true")
ap.add_argument("-t", type=int, default=30); ap.add_argument("-o", default="/tmp/one.txt"); ap.add_argument("-l", action="store_true")
ap.add_argument("entry")
a = ap.parse_args()
d = tempfile.mkdtemp(prefix="one_", dir="/tmp")
try:
    shutil.copytree("/repo/src", d + "/src"); shutil.copy("/repo/Cargo.toml", d)
    if a.r:
        from refactors import REF
        for f, old, new in dict(REF)[a.r]:
            t = open(d + "/" + f).read(); assert old in t; open(d + "/" + f, "w").write(t.replace(old, new, 1))
    if a.p:
        subprocess.run(["git", "apply", os.path.abspath(a.p)], cwd=d, check=True)
    run.REPO = d
    if a.s: os.environ["AS_SPLITS"] = "1"
    cfg = [c for c in run.CONFIGS + run.every_config() if c[0] == a.c][0]
    rep, r = run.run_one(cfg, (0, 1), run.setup(), run.sysroot(), "/tmp/one.json", a.t, only=a.entry, verbose=not a.q, log_panics=a.l)
    open(a.o, "w").write(r.stderr)
    if rep is None: print(r.stderr[-3000:]); sys.exit(1)
    for e in rep["entries"]: print(e["label"], e["mode"], "paths", e["paths"], "checks", e["checks"], e["ms"], "ms", e["gave_up"] or "")
    for v in rep["violations"][:int(os.environ.get("NV", "6"))]:
        print(v["prop"], v["entry"], v["site"].split("/")[-1], v["rule"], "|", v["msg"][:600], "UNK" if v["unknown"] else "")
        for l in v["trace"][-int(os.environ.get("NT", "12")):]: print("      ", l[:300])
finally:
    shutil.rmtree(d)

#!/usr/bin/env python3
"""try_refactors.py [-t] [-v] [NAME...]: runs every check on every refactoring of tools/refactors.py; -t also runs the repository's tests."""
import json, os, shutil, subprocess, sys, tempfile
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [R, R + "/analyzer", R + "/tools"]; sys.dont_write_bytecode = True
import run, check
from refactors import REF
ids = [c["property"] for c in json.load(open(R + "/MANIFEST.json"))["checks"]]
want = [a for a in sys.argv[1:] if not a.startswith("-")]
bad = []
for name, edits in REF:
    if want and name not in want: continue
    d = tempfile.mkdtemp(prefix="ref_", dir="/tmp")
    try:
        shutil.copytree("/repo/src", d + "/src"); shutil.copy("/repo/Cargo.toml", d)
        ok = True
        for f, old, new in edits:
            t = open(d + "/" + f).read()
            n = t.count(old)
            if n < 1: print(name, "EDIT DOES NOT MATCH", f, old[:50]); ok = False; break
            open(d + "/" + f, "w").write(t.replace(old, new, 1))
        if not ok: bad.append(name); continue
        if "-t" in sys.argv:
            for x in ("tests", "benches"): shutil.copytree("/repo/" + x, d + "/" + x)
            shutil.copy("/repo/Cargo.lock", d)
            os.makedirs("/tmp/reft", exist_ok=True)
            shutil.copytree(d, "/tmp/reft/repo", dirs_exist_ok=True)
            e = dict(os.environ, CARGO_TARGET_DIR="/tmp/reft/target", CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_PROFILE_DEV_DEBUG="0")
            r = subprocess.run("touch src/*.rs; cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 8 2>&1; cargo check --lib --no-default-features --offline 2>&1 | tail -3", shell=True, cwd="/tmp/reft/repo", env=e, capture_output=True, text=True)
            okc = r.stdout.count("... ok")
            if okc < 80 or "error" in r.stdout: print(name, "TESTS", okc, [l for l in r.stdout.splitlines() if "FAILED" in l or l.startswith("error")][:4])
            continue
        run.REPO = d
        cfgs = [c for c in run.CONFIGS if c[0] in run.QUICK]
        reps = check.analyse(None, cfgs, False)
        out = {}
        for i in ids:
            f, _ = check.verdict(i, reps, cfgs)
            if f: out[i] = f
        ms = max([e["ms"] for r in reps.values() if not isinstance(r, str) for e in r["entries"]] or [0])
        if out or ms > 9000:
            bad.append(name)
            print(name, "->", " ".join(out) or "quiet", "slowest %d ms" % ms, flush=True)
        if "-v" in sys.argv:
            seen = set()
            for i, f in out.items():
                for n, v in f:
                    k = (v["entry"], v["rule"], v["msg"][:80])
                    if k in seen: continue
                    seen.add(k)
                    if len(seen) < 8: print("     ", i, n, v["entry"], v["site"].split("/")[-1], v["rule"], "|", v["msg"][:300], "UNK" if v["unknown"] else "")
    finally:
        shutil.rmtree(d)
print(len(REF), "refactorings,", len(bad), "with alarms:", " ".join(bad))

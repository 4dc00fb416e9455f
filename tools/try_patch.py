#!/usr/bin/env python3
"""try_patch.py PATCH...: which properties the checks report on a scratch copy of /repo with each patch (development aid)."""
import json, os, shutil, subprocess, sys, tempfile
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R); sys.path.insert(0, R + "/analyzer"); sys.dont_write_bytecode = True
import run, check
ids = [c["property"] for c in json.load(open(R + "/MANIFEST.json"))["checks"]]
detail = "-v" in sys.argv
bad = 0
for p in [a for a in sys.argv[1:] if not a.startswith("-")]:
    d = tempfile.mkdtemp(prefix="try_", dir="/tmp")
    try:
        shutil.copytree("/repo/src", d + "/src"); shutil.copy("/repo/Cargo.toml", d)
        r = subprocess.run(["git", "apply", "--whitespace=nowarn", os.path.abspath(p)], cwd=d, capture_output=True, text=True)
        if r.returncode:
            print(p, "DOES NOT APPLY", r.stderr.strip()[:200]); bad += 1; continue
        run.REPO = d
        cfgs = [c for c in run.CONFIGS if c[0] in run.QUICK]
        reps = check.analyse(None, cfgs, False)
        out = {}
        for i in ids:
            f, _ = check.verdict(i, reps, cfgs)
            if f: out[i] = f
        unk = any(v["unknown"] for f in out.values() for _, v in f)
        ms = max([e["ms"] for r in reps.values() if not isinstance(r, str) for e in r["entries"]] or [0])
        print(p, "->", " ".join(out) or "quiet", "UNKNOWN" if unk else "", "slowest %d ms" % ms)
        if detail:
            seen = set()
            for i, f in out.items():
                for n, v in f:
                    k = (v["entry"], v["rule"], v["msg"][:80])
                    if k in seen: continue
                    seen.add(k)
                    if len(seen) < 12: print("     ", i, n, v["entry"], v["site"].split("/")[-1], v["rule"], "|", v["msg"][:260])
    finally:
        shutil.rmtree(d)

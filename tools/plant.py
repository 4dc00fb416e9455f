#!/usr/bin/env python3
"""plant.py [ID...]: regenerates /verif/seeded/<id>/ from tools/seeds.py against /repo's HEAD and confirms each bug:
it applies, builds, passes the stable tests, and its demonstration tells the two trees apart (development aid)."""
import json, os, shutil, subprocess, sys, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R + "/tools"); sys.dont_write_bytecode = True
from seeds import SEEDS
W = "/tmp/plant"; REPO = W + "/repo"; TGT = W + "/target"
BASE = json.load(open("/opt/vp/BASELINE.json"))

DEMO = '''#!/bin/bash
# cwd: the repository. Exit 0: behaves as promised; 1: broken.
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
export PATH=/root/.cargo/bin:$PATH
%s
timeout 120 "$d/demo"
'''
PLAIN = '''rustc --edition 2021 -Awarnings %s --crate-type rlib --crate-name arraystring %s src/lib.rs -o "$d/libarraystring.rlib" || exit 3
rustc --edition 2021 -Awarnings %s --extern arraystring="$d/libarraystring.rlib" "$here/demo.rs" -o "$d/demo" || exit %d'''
CARGO = '''mkdir "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
arraystring = { path = "$PWD", features = [%s] }
%s
[workspace]
EOF
if [ -f Cargo.lock ]; then cp Cargo.lock "$d/Cargo.lock"; elif [ -f /opt/vp/Cargo.lock.saved ]; then cp /opt/vp/Cargo.lock.saved "$d/Cargo.lock"; fi
CARGO_TARGET_DIR="$d/target" cargo build -q --offline %s --manifest-path "$d/Cargo.toml" || exit 3
cp "$d/target/%s/demo" "$d/demo"'''


def sh(c, cwd=None, env=None, t=900):
    return subprocess.run(c, shell=True, cwd=cwd, env=env, capture_output=True, text=True, timeout=t)


def fresh():
    os.makedirs(W, exist_ok=True)
    if os.path.exists(REPO):
        shutil.rmtree(REPO)
    r = sh("git -C /repo archive HEAD | (mkdir -p %s && tar x -C %s)" % (REPO, REPO)); assert r.returncode == 0, r.stderr
    shutil.copy("/opt/vp/Cargo.lock.saved" if os.path.exists("/opt/vp/Cargo.lock.saved") else "/repo/Cargo.lock", REPO + "/Cargo.lock")
    sh("git init -q . && git add -A && git commit -qm x", cwd=REPO)


def tests():
    e = dict(os.environ, CARGO_TARGET_DIR=TGT, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_PROFILE_DEV_DEBUG="line-tables-only", PATH="/root/.cargo/bin:" + os.environ["PATH"])
    r = sh("cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 8", cwd=REPO, env=e)
    open(W + "/test.log", "w").write(r.stdout + r.stderr)
    q = sh("cargo check --workspace --lib --offline && cargo check --workspace --lib --no-default-features --offline", cwd=REPO, env=e)
    failed = re.findall(r"^test (.+?) \.\.\. FAILED", r.stdout, re.M)
    okc = len(re.findall(r"^test .+? \.\.\. ok", r.stdout, re.M))
    return failed, okc, q.returncode


def main():
    want = sys.argv[1:]
    seen = set()
    for s in SEEDS:
        i = s["id"]
        assert i not in seen, i
        seen.add(i)
        if want and i not in want:
            continue
        fresh()
        out = R + "/seeded/" + i
        os.makedirs(out, exist_ok=True)
        bad = None
        for f, old, new in s["edits"]:
            t = open(REPO + "/" + f).read()
            if t.count(old) != 1:
                bad = "edit matches %d times in %s: %s" % (t.count(old), f, old[:60]); break
            open(REPO + "/" + f, "w").write(t.replace(old, new))
        if bad:
            print(i, "BAD", bad); shutil.rmtree(out); continue
        diff = sh("git diff", cwd=REPO).stdout
        flags = s.get("flags", "-Cdebug-assertions=on")
        feats = s.get("feats")
        if feats is None:
            cfg = s.get("cfg", "--cfg 'feature=\"default\"' --cfg 'feature=\"std\"'")
            body = PLAIN % (flags, cfg, flags, s.get("compile_fail", 3))
        else:
            rel = s.get("release")
            body = CARGO % (", ".join('"%s"' % f for f in feats), s.get("deps", ""), "--release" if rel else "", "release" if rel else "debug")
        open(out + "/patch.diff", "w").write(diff)
        open(out + "/demo.rs", "w").write("use arraystring::prelude::*;\n" + s["demo"].strip() + "\n" if not s.get("raw") else s["demo"])
        open(out + "/demo.sh", "w").write(DEMO % body)
        os.chmod(out + "/demo.sh", 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        d1 = sh("bash %s/demo.sh" % out, cwd=REPO)
        failed, okc, q = tests()
        sh("git checkout -q -- .", cwd=REPO)
        d0 = sh("bash %s/demo.sh" % out, cwd=REPO)
        good = d0.returncode == 0 and d1.returncode not in (0, 3) and not failed and okc >= 80 and q == 0
        print(i, s["property"], "ok" if good else "BAD", "demo %d/%d" % (d0.returncode, d1.returncode), "tests ok %d failed %s check %d" % (okc, failed, q), flush=True)
        if not good:
            print((d0.stdout + d0.stderr)[-800:] if d0.returncode else "", d1.stderr[-600:] if d1.returncode == 3 else "")
            print(sh("grep -E '^error' -A8 %s/test.log | head -20" % W).stdout)
            shutil.rmtree(out)


main()

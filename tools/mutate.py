#!/usr/bin/env python3
"""mutate.py gen|run|check: systematic one-line mutants of /repo/src that still build and pass the tests, to look for gaps in the checks (development aid)."""
import json, os, re, shutil, subprocess, sys, threading, queue, random
W = "/tmp/mut"; SRC = "/repo/src"
FILES = ["arraystring.rs", "utils.rs", "implementations.rs", "lib.rs", "drain.rs", "error.rs", "integration.rs"]
SUBS = [
    (r"<=", "<"), (r"(?<![<\-=])<(?![<=A-Za-z'&(_\[])", "<="), (r">=", ">"), (r"==", "!="), (r"!=", "=="),
    (r" \+ ", " - "), (r" - ", " + "), (r" \+ 1\b", ""), (r" - 1\b", ""), (r"\+= ", "-= "), (r"-= ", "+= "),
    (r"saturating_add\(1\)", "saturating_add(0)"), (r"saturating_add", "wrapping_add"), (r"saturating_sub", "wrapping_sub"),
    (r"&&", "||"), (r"\|\|(?! )", "&&"), (r"(?<=[ (])!(?=[a-z(])", ""), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
    (r"\b0\b", "1"), (r"\b1\b", "2"), (r"\b1\b", "0"), (r"\b63\b", "62"), (r"\b255\b", "254"),
    (r"\bmin\(", "max("), (r"\bmax\(", "min("), (r"\.next\(\)", ".next_back()"), (r"\.next_back\(\)", ".next()"),
    (r"self\.len\(\)", "Self::capacity()"), (r"Self::capacity\(\)", "self.len()"), (r"\bstart\b", "end"), (r"\bend\b", "start"),
    (r"Bound::Included", "Bound::Excluded"), (r"Bound::Excluded", "Bound::Included"), (r"OutOfBounds", "Utf8"), (r"Utf8\b", "OutOfBounds"), (r"Utf16\b", "Utf8"), (r"Utf8\b", "Utf16"),
    (r"\.\.(?=[a-z(])", "..="), (r"\.\.=", ".."), (r"from_str_truncate", "try_from_str"), (r"try_push_str\(", "push_str_truncate("), (r"push_str_truncate\(", "try_push_str("),
    (r"\.chars\(\)", ".chars().rev()"), (r"\bbreak\b", "continue"), (r"\bcopy\(", "copy_nonoverlapping("), (r"is_err\(\)", "is_ok()"), (r"is_ok\(\)", "is_err()"), (r"is_some", "is_none"), (r"is_none", "is_some"),
    (r"as_str\(\)", "as_str().trim()"), (r"\.self\.0\b", ".self.0"), (r"\?;", ";"), (r"\bOk\(", "Err("), (r"take_while", "filter"), (r"skip_while", "filter"), (r"\bself\b", "other"), (r"\bother\b", "self"),
    (r"\.eq\(", ".ne("), (r"\.partial_cmp\(", ".cmp("), (r"return Ok\(\(\)\);", ""), (r"\bfind\b", "rfind"), (r"\brfind\b", "find"), (r"map_err\(\|_\| \w+\)", "map_err(|_| unreachable!())"),
    (r"REPLACEMENT_CHARACTER", "from(b'?')"), (r"len_utf8\(\)", "len_utf16()"), (r"is_whitespace", "is_ascii_whitespace"), (r"to_le", "to_be"),
]


def code_lines(t):
    """(index, line) of code that is not comment, attribute, test or macro logging"""
    test = False
    for i, l in enumerate(t):
        s = l.strip()
        if "#[cfg(test)]" in s: break
        if not s or s.startswith(("//", "#[", "#![", "use ", "pub use", "debug!", "trace!", "debug_assert", "impl", "where", "pub trait", "pub struct", "}", "pub mod", "mod ", "extern", "pub fn", "fn ", "unsafe {", "T:", "I:", "U:", "F:", "S:", "@")): continue
        yield i, l


def gen():
    out = []
    for f in FILES:
        t = open(SRC + "/" + f).read().split("\n")
        for i, l in code_lines(t):
            seen = set()
            code = l.split("//")[0]
            for a, b in SUBS:
                for m in re.finditer(a, code):
                    n = l[:m.start()] + m.expand(b) + l[m.end():]
                    if n != l and n not in seen:
                        seen.add(n); out.append((f, i, n))
            if code.rstrip().endswith(";") and not code.strip().startswith(("let ", "return", "type", "const", "pub")):
                out.append((f, i, ""))
            if code.rstrip().endswith(";") and code.strip().startswith("let _ ="):
                out.append((f, i, ""))
    # exchange neighbouring statements
    for f in FILES:
        t = open(SRC + "/" + f).read().split("\n")
        ok = dict(code_lines(t))
        for i in ok:
            if i + 1 in ok and t[i].rstrip().endswith(";") and t[i + 1].rstrip().endswith(";") and t[i] != t[i + 1]:
                out.append((f, i, t[i + 1], t[i]))
    json.dump(out, open(W + "/all.json", "w"))
    print(len(out), "mutants")


def apply(d, m):
    p = d + "/src/" + m[0]
    t = open(SRC + "/" + m[0]).read().split("\n")
    t[m[1]] = m[2]
    if len(m) > 3: t[m[1] + 1] = m[3]
    open(p, "w").write("\n".join(t))


def restore(d, m):
    shutil.copy(SRC + "/" + m[0], d + "/src/" + m[0])


def run(jobs=int(os.environ.get("JOBS", "7"))):
    ms = json.load(open(W + "/all.json"))
    done = {json.dumps(k): v for k, v in (json.load(open(W + "/done.json")) if os.path.exists(W + "/done.json") else [])}
    q = queue.Queue()
    for m in ms:
        if json.dumps(m) not in done: q.put(m)
    lock = threading.Lock()
    def work(k):
        d = W + "/w%d" % k
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        for x in ("src", "tests", "benches", "ffi"): shutil.copytree("/repo/" + x, d + "/" + x)
        for x in ("Cargo.toml", "Cargo.lock", "README.md"): shutil.copy("/repo/" + x, d)
        e = dict(os.environ, CARGO_TARGET_DIR=W + "/t%d" % k, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_PROFILE_DEV_DEBUG="0", RUSTFLAGS="-Awarnings")
        def sh(c, t=120):
            try: return subprocess.run("timeout %d %s" % (t, c), shell=True, cwd=d, env=e, capture_output=True, text=True)
            except Exception as x: return None
        while True:
            try: m = q.get_nowait()
            except queue.Empty: return
            apply(d, m)
            r = sh("cargo check --lib --all-features --offline")
            res = "build"
            if r.returncode == 0 and sh("cargo check --lib --no-default-features --offline").returncode == 0:
                r = sh("cargo test --all-features --offline --lib --tests -- --test-threads 4")
                res = "test"
                if r.returncode == 0:
                    r = sh("cargo test --all-features --offline --doc -- --test-threads 4", 200)
                    res = "survives" if r.returncode == 0 else "test"
            restore(d, m)
            with lock:
                done[json.dumps(m)] = res
                json.dump([(json.loads(k), v) for k, v in done.items()], open(W + "/done.tmp", "w")); os.rename(W + "/done.tmp", W + "/done.json")
                if len(done) % 50 == 0: print(len(done), "of", len(ms), sum(v == "survives" for v in done.values()), "survive", flush=True)
    ts = [threading.Thread(target=work, args=(k,)) for k in range(jobs)]
    [t.start() for t in ts]; [t.join() for t in ts]


def check():
    R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    sys.path[:0] = [R, R + "/analyzer"]; sys.dont_write_bytecode = True
    import run as rn, check as ck
    ids = [c["property"] for c in json.load(open(R + "/MANIFEST.json"))["checks"]]
    done = json.load(open(W + "/done.json"))
    res = json.load(open(W + "/verdict.json")) if os.path.exists(W + "/verdict.json") else {}
    for m, v in done:
        k = json.dumps(m)
        if v != "survives" or k in res: continue
        d = W + "/c"
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        shutil.copytree("/repo/src", d + "/src"); shutil.copy("/repo/Cargo.toml", d)
        apply(d, m)
        rn.REPO = d
        cfgs = [c for c in rn.CONFIGS if c[0] in rn.QUICK]
        reps = ck.analyse(None, cfgs, False)
        out, unk = [], False
        for i in ids:
            f, _ = ck.verdict(i, reps, cfgs)
            if f:
                out.append(i); unk |= all(x["unknown"] for _, x in f)
        res[k] = (out, unk)
        old = open(SRC + "/" + m[0]).read().split("\n")[m[1]]
        print("%s:%d\n   - %s\n   + %s%s\n   => %s%s" % (m[0], m[1] + 1, old.strip(), m[2].strip(), " / " + m[3].strip() if len(m) > 3 else "", " ".join(out) or "QUIET", " UNKNOWN" if unk else ""), flush=True)
        json.dump(res, open(W + "/verdict.json", "w"))


{"gen": gen, "run": run, "check": check}[sys.argv[1]]()

#!/usr/bin/env python3
"""check.py ID [--thorough]: decides one property of /repo's current source by static analysis.

Exit 0: established. Exit 1 and a line VIOLATION: a construct breaks the property, or cannot be shown to respect it."""
import json, os, re, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "analyzer"))
sys.dont_write_bytecode = True
import run

SAFETY = ("S01", "S02", "S03", "S04", "S05")
INTEGRATION = {"Serialize": "serde-traits", "Deserialize": "serde-traits", "FromSql": "diesel-traits", "ToSql": "diesel-traits"}


def needs(label):
    m = re.search(r" as (\w+)", label)
    return INTEGRATION.get(m.group(1)) if m else None


def merge(reps):
    out = {"entries": [], "violations": [], "stats": {}, "visited": set(), "unmodelled": set(), "all": set()}
    for r in reps:
        out["entries"] += r["entries"]
        out["violations"] += r["violations"]
        for k, v in r["stats"].items():
            out["stats"][k] = out["stats"].get(k, 0) + v
        for k in ("visited", "unmodelled", "all"):
            out[k] |= set(r[k])
    return out


def analyse(pid, cfgs, thorough):
    """one merged report (or an error text) per configuration"""
    deps, sr = run.setup(), run.sysroot()
    cpus = os.cpu_count() or 4
    tmp = os.path.join(run.BUILD, "reports-%s-%d" % (pid, os.getpid()))
    os.makedirs(tmp, exist_ok=True)
    jobs = []
    for c in cfgs:
        heavy = "logs" in c[1] and pid in SAFETY + ("F01", "A08", "C01", None)
        k = max(2, cpus // 2) if heavy else 1
        for lp in ([False, True] if thorough and pid == "S04" and "logs" in c[1] else [False]):
            jobs += [(c, (i, k), lp) for i in range(k)]
    jobs.sort(key=lambda j: "logs" not in j[0][1])

    def go(j):
        c, sh, lp = j
        out = os.path.join(tmp, "%s-%d-%d.json" % (c[0], sh[0], lp))
        try:
            rep, r = run.run_one(c, sh, deps, sr, out, 240 if thorough else 60, prop=pid, log_panics=lp, total=2400 if thorough else 300, timeout=6000 if thorough else 700)
        except subprocess.TimeoutExpired:
            return c[0], None, "the analysis did not finish in time"
        if os.path.exists(out):
            os.unlink(out)
        return c[0], rep, "the analyser ended with status %s: %s" % (r.returncode, r.stderr[-3000:])

    with ThreadPoolExecutor(cpus) as ex:
        res = list(ex.map(go, jobs))
    try:
        os.rmdir(tmp)
    except OSError:
        pass
    final = {}
    for c in cfgs:
        mine = [r for r in res if r[0] == c[0]]
        bad = [r[2] for r in mine if r[1] is None]
        final[c[0]] = bad[0] if bad else merge([r[1] for r in mine])
    return final


def relevant(pid, rep, feats):
    """the violations of one property in one configuration"""
    props = {e["label"]: e["props"] for e in rep["entries"]}
    found = []
    for v in rep["violations"]:
        p, e = v["prop"], v["entry"]
        if p == pid or (p == "*" and (pid in SAFETY or pid in props.get(e, []))):
            found.append(v)
        elif pid == "L01" and e.endswith("::capacity") and p == "V01":
            found.append(v)
        elif pid == "C01" and e.startswith(("CacheString", "<CacheString")):
            # a defect of the generic string shows in both
            twin = e.replace("CacheString", "ArrayString", 1)
            mine = {(w["prop"]) for w in rep["violations"] if w["entry"] == twin}
            if p not in mine and p != "L01":
                found.append(v)
    return found


def missing(pid, rep, feats):
    with open(os.path.join(ROOT, "analyzer/operations.json")) as f:
        base = json.load(f)
    out = []
    for label, props in base.items():
        n = needs(label)
        if (n and n not in feats) or (pid not in props and not (pid == "F01" and not n)):
            continue
        if label not in rep["all"]:
            out.append({"prop": pid, "rule": "missing", "msg": "the operation %s is gone: there is nothing left to establish the property on" % label, "entry": label, "site": "", "unknown": False, "trace": []})
    return out


def differences(reps):
    """F01: what is violated in some configurations only"""
    keys = {}
    where = {}
    for name, rep in reps.items():
        for l in rep["all"]:
            where.setdefault(l, set()).add(name)
        for v in rep["violations"]:
            if v["prop"].startswith("L"):
                continue
            k = (v["prop"], v["rule"], v["entry"])
            keys.setdefault(k, {}).setdefault(name, v)
    out = []
    for (p, r, e), by in keys.items():
        have = where.get(e, set(reps))
        if set(by) < have:
            name, v = sorted(by.items())[0]
            w = dict(v)
            w["msg"] = "[%s: only in %s, not in %s] %s" % (p, ", ".join(sorted(by)), ", ".join(sorted(have - set(by))), v["msg"])
            out.append(w)
    return out


def known(pid):
    """findings recorded in known-findings.txt: lines 'known: property=ID entry=LABEL rule=RULE ...' (fixed: lines suppress nothing)"""
    out = []
    try:
        with open(os.path.join(ROOT, "known-findings.txt")) as f:
            for l in f:
                m = re.match(r"known: property=(\S+) entry=(.+?) rule=(.+?) what=(.*)$", l.strip())
                if m and m.group(1) == pid:
                    out.append((m.group(2), m.group(3), m.group(4)))
    except OSError:
        pass
    return out


def verdict(pid, reps, cfgs):
    """all (configuration, violation) of a property, and the configurations that have a report"""
    found = []
    for name, feats, dbg in cfgs:
        rep = reps[name]
        if isinstance(rep, str):
            found.append((name, {"rule": "no report", "msg": "the source cannot be analysed: " + rep, "entry": "", "site": "", "trace": [], "unknown": True, "prop": "*"}))
            continue
        if pid != "F01":
            found += [(name, v) for v in relevant(pid, rep, feats)]
        found += [(name, v) for v in missing(pid, rep, feats)]
    good = {n: r for n, r in reps.items() if not isinstance(r, str)}
    if pid == "F01":
        found += [("comparison", v) for v in differences(good)]
    return found, good


def main():
    t0 = time.time()
    pid = sys.argv[1]
    thorough = "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough"
    cfgs = run.every_config() if thorough else [c for c in run.CONFIGS if c[0] in run.QUICK]
    reps = analyse(pid, cfgs, thorough)
    found, good = verdict(pid, reps, cfgs)
    listed = known(pid)
    fresh, shown = [], set()
    for name, v in found:
        hit = [k for k in listed if k[0] == v["entry"] and k[1] == v["rule"]]
        if hit:
            shown.add("KNOWN-FINDING: property=%s %s" % (pid, hit[0][2]))
        else:
            fresh.append((name, v))
    for l in sorted(shown):
        print(l)

    # what was covered, measured on this run
    ent = [(n, e) for n, r in good.items() for e in r["entries"] if pid in e["props"] or pid in ("F01", "L01")]
    stats = {}
    for r in good.values():
        for k, v in r["stats"].items():
            stats[k] = stats.get(k, 0) + v
    own = {k: v for k, v in stats.items() if k.startswith(pid + " ")}
    paths = sum(e["checks"] for _, e in ent) if pid not in ("L02", "L03") else 0
    obligations = paths + sum(own.values()) + (len(found) if paths + sum(own.values()) == 0 else 0)
    ops = sorted({e["label"] for _, e in ent})
    cov = {
        "obligations": obligations,
        "discharged": max(0, obligations - len(found)),
        "checker_cmd": "python3 check.py %s%s" % (pid, " --thorough" if thorough else ""),
        "trusted_base": [
            "rustc's type checking, trait resolution, layouts and MIR construction (nightly, -Zmir-opt-level=0)",
            "the analyser in /verif/analyzer (abstract domain, transfer functions, linear arithmetic)",
            "axioms for the primitive operations of core (str, slice, char, ptr, fmt) in analyzer/src/models.rs",
            "the contracts in analyzer/src/spec.rs",
        ],
        "configurations": {n: {"features": f, "debug_assertions": d} for n, f, d in cfgs},
        "operations": ops,
        "paths_decided": paths,
        "rules": own,
        "functions_entered": sorted({f for r in good.values() for f in r["visited"]})[:600],
        "loop_invariants_established": stats.get("loop invariants", 0),
        "analysis_runs": len(ent),
    }
    viol = []
    rc = 0
    if fresh:
        rc = 1
        d = os.path.join(ROOT, "evidence/replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, pid + ".txt")
        with open(path, "w") as f:
            f.write("property %s: %d violations\n" % (pid, len(fresh)))
            f.write("again: cd %s && python3 check.py %s%s\n" % (ROOT, pid, " --thorough" if thorough else ""))
            for name, v in fresh[:200]:
                f.write("\n[%s] %s\n  at %s\n  rule: %s%s\n  %s\n" % (name, v["entry"], v["site"], v["rule"], " (could not be established)" if v["unknown"] else "", v["msg"]))
                for t in v["trace"]:
                    f.write("    | %s\n" % t)
        for name, v in fresh[:6]:
            print("  [%s] %s at %s: %s: %s" % (name, v["entry"], v["site"], v["rule"], v["msg"][:400]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        viol = [{"configuration": n, "entry": v["entry"], "site": v["site"], "rule": v["rule"], "message": v["msg"][:1000]} for n, v in fresh[:50]]
    ev = {
        "property": pid,
        "tier": "thorough" if thorough else "quick",
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "proof",
        "coverage": cov,
        "assumptions": ["callers' trait implementations are arbitrary safe code", "the exhausted flag of a RangeInclusive passed by the caller is not set", "unsafe public functions are called as documented"],
        "violations": viol,
        "wall_s": round(time.time() - t0, 2),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    tmp = os.path.join(ROOT, "evidence", ".%s.%d" % (pid, os.getpid()))
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(ROOT, "evidence", pid + ".json"))
    if rc == 0:
        print("%s holds: %d obligations over %d operations in %d configurations, %.1f s" % (pid, obligations, len(ops), len(cfgs), time.time() - t0))
    return rc


if __name__ == "__main__":
    pid = sys.argv[1]
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException as e:  # no answer is not an option
        import traceback

        traceback.print_exc()
        d = os.path.join(ROOT, "evidence/replay")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, pid + ".txt"), "w") as f:
            traceback.print_exc(file=f)
        print("VIOLATION property=%s replay=%s" % (pid, os.path.join(d, pid + ".txt")))
        rc = 1
    sys.exit(rc)

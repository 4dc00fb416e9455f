"""Writes MANIFEST.json from properties.jsonl."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = "abstract interpretation of the type-checked MIR"
TECH = {
    "S01": AI + ": UTF-8 validity and length invariant at every exit",
    "S02": AI + ": bounds of every access and preconditions of every unchecked call",
    "S03": AI + ": unreachability of every panic and overflow site",
    "S04": AI + ": string invariant at every unwinding exit",
    "S05": AI + ": a lexicographic measure for every loop invariant",
    "C01": AI + ": same contracts for both string types",
    "F01": AI + ": verdicts compared between feature and profile configurations",
    "L01": "layout and trait-bound queries for every capacity",
    "L02": "effect analysis: classification of every callee mentioned in MIR, linked crates",
    "L03": "trait resolution, field visibility and signature queries",
    "E01": AI + " of the error conversions and comparisons against contracts",
}
NOTE = (
    "Every path of the generic code is decided for all inputs and all capacities 1 to 255, in each analysed feature/profile configuration; "
    "an obligation that cannot be established counts as a violation. Trusted: rustc's front end, the analyser itself, its axioms for primitive operations of core, and the contracts."
)
NOTES = {
    "L01": "Decided from rustc's layouts and from trait resolution for each of the capacities 1 to 255, and for sampled capacities outside (every constructor must be refused there). Trusted: rustc.",
    "L02": "Every function mentioned in any body of the crate is classified by defining crate and by the trait implementations it needs for heap types. Trusted: that core does not allocate, rustc's resolution; callees inside an integrated crate are exempt, as the property says.",
    "L03": "Decided by trait resolution on every capacity, by field visibility, and by the signatures of everything reachable from outside. Trusted: rustc's privacy and trait resolution.",
}
NA = {
    "N01": "The C interface is a separate crate (ffi) that is outside the workspace, does not build against the current library and is not tested: there is no compiled artefact whose functions could be analysed.",
    "N02": "Running time relative to another type is a measurement: no static analysis in reach bounds machine time.",
}
checks, na = [], []
for l in open(R + "/properties.jsonl"):
    p = json.loads(l)["id"]
    if p in NA:
        na.append({"property": p, "reason": NA[p]})
        continue
    checks.append({
        "property": p,
        "quick_cmd": "python3 check.py " + p,
        "thorough_cmd": "python3 check.py " + p + " --thorough",
        "technique": TECH.get(p, AI + " against the operation's contract"),
        "level": "proof",
        "level_note": NOTES.get(p, NOTE),
    })
json.dump({"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": na}, open(R + "/MANIFEST.json", "w"), indent=1)

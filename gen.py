#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py and checks.py."""
import json
import checks
import design
import props

with open("properties.jsonl", "w") as f:
    for p in props.PROPS:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
ids = {p["id"] for p in props.PROPS}
na = {i for i, _ in props.NOT_APPLICABLE}
assert ids == set(checks.CHECKS) | na, (ids ^ (set(checks.CHECKS) | na))
assert not set(checks.CHECKS) & na
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": [
        {
            "property": i,
            "quick_cmd": "python3 run.py %s --tier quick" % i,
            "thorough_cmd": "python3 run.py %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "symbolic execution of the compiled code's LLVM IR, assertions decided by Z3 (bit-vectors); counterexamples replayed natively",
            "level": checks.LEVEL,
            "level_note": "Bounded: " + c.bounds + ". Outside: " + c.outside + ". Trusted: rustc, the engine's LLVM semantics (compared with native runs on sampled paths each run), Z3" + ("; " + "; ".join(c.assumptions) if c.assumptions else "") + ".",
        }
        for i, c in sorted(checks.CHECKS.items())
    ],
    "not_applicable": [{"property": i, "reason": r} for i, r in props.NOT_APPLICABLE],
    "notes": "No hooks: the harnesses use public items only. Known findings and repaired defects: known/findings.txt.",
}
json.dump(m, open("MANIFEST.json", "w"), indent=1, ensure_ascii=False)
open("MANIFEST.json", "a").write("\n")

o = [design.HEAD, "## Per property\n"]
for p in props.PROPS:
    i = p["id"]
    if i not in checks.CHECKS:
        continue
    c = checks.CHECKS[i]
    o.append("### %s %s\n" % (i, p["title"]))
    o.append(design.HOW[i] + "\n")
    o.append("Bounds: %s. Outside: %s. Tests cannot: %s\n" % (c.bounds, c.outside, p["why_tests_cant"]))
    for e in c.entries:
        o.append("* `%s` (%s, about %d core-s): %s" % (e.name, e.tier, e.cost, e.bounds))
    if c.assumptions:
        o.append("\nAssumed: " + "; ".join(c.assumptions) + ".")
    o.append("")
o.append(design.TAIL)
open("DESIGN.md", "w").write("\n".join(o).rstrip() + "\n")

#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the list in props_list.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props_list import PROPS, NOT_APPLICABLE

HERE = os.path.dirname(os.path.abspath(__file__))
TECH = ("symbolic execution of the repository's own Rust sources (f64 -> symbolic reals) with SMT (z3, cvc5) "
        "deciding every branch and claim; counterexamples replayed on the native build")
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in PROPS:
        mech = [{"name": n, "where": w} for n, w in p["mech"]]
        line = {
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p.get("over", ["inputs"]), "text": p["bounds"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": mech,
                        "observe_at": p.get("observe", []), "hook_needed": None},
        }
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(line) + "\n")
checks = []
for p in PROPS:
    if p["id"] in NOT_APPLICABLE:
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": f"python3 check.py {p['id']} quick",
        "thorough_cmd": f"python3 check.py {p['id']} thorough",
        "technique": TECH,
        "level": "model_checking",
        "level_note": "Bounded: " + p["bounds"] + " Arithmetic over the extended reals, not IEEE rounding; "
                      "trusted: the source transformation, the stand-ins for rayon/polars/rand/clarabel and the solvers; "
                      "paths the solver leaves open are counted in the evidence, not claimed."
                      + (" " + p["note"] if p.get("note") else ""),
    })
man = {
    "version": 1,
    "setup_cmd": "python3 check.py setup",
    "checks": checks,
    "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NOT_APPLICABLE.items())],
    "notes": "No hooks: everything is observed through the public API of the crate, which check.py rebuilds from "
             "/repo's working tree on every run (see DESIGN.md).",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(PROPS), "properties,", len(checks), "checks")

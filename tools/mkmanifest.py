"""Writes MANIFEST.json from the table of checks."""
import json, os
from jobs import PROPS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOT = {}
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for i in ids:
    if i not in PROPS:
        continue
    checks.append({
        "property": i,
        "quick_cmd": "./check %s quick" % i,
        "thorough_cmd": "./check %s thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": "symbolic execution of the crate's LLVM IR, assertions decided by z3",
        "level": "model_checking",
        "level_note": "Bounded: " + PROPS[i]["bounds"] + ". Every path of the compiled code within the bounds is executed symbolically and every assertion on it decided for all values; "
                      "counterexamples are replayed on the natively built code. Trusts rustc and LLVM, the executor's IR semantics (tested against native runs of sampled paths), z3, and the model of hash tables.",
    })
m = {"version": 1, "setup_cmd": "python3 tools/irbuild.py", "checks": checks,
     "not_applicable": [{"property": i, "reason": NOT.get(i, "no check yet")} for i in ids if i not in PROPS],
     "notes": "No hooks in /repo: the harness crate in harness/ uses the public API only."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")

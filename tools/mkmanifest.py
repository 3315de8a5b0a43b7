"""Writes MANIFEST.json from contracts/table.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/contracts")
from table import PROPS, NOT_APPLICABLE
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PROPS and not PROPS[i].get("off"):
        checks.append({
            "property": i,
            "quick_cmd": "python3-vt engine/run.py %s" % i,
            "thorough_cmd": "VERIF_TIER=thorough python3-vt engine/run.py %s" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "contract-based deductive verification of the C++ functions extracted from /repo with clang on every run (weakest-precondition style symbolic execution, loop invariants, z3); bounded run of the real build for functions out of reach and as counterexample replay",
            "level": "proof",
            "level_note": PROPS[i].get("note", "Every obligation generated from the current source of the functions under contract is discharged for all inputs over mathematical reals/integers; functions the verifier cannot reach are listed in the evidence as bounded_not_proved and only covered by the bounded run on the real build."),
        })
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "no check built yet")})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the functions are extracted from the unmodified sources by clang on every run."},
          open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")

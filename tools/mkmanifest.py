"""Writes /verif/MANIFEST.json from the registered rules."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sa import core  # noqa: E402

core.load_rules()
NA = {
    "N01": "numeric equality over arbitrary arrays: a source-level analysis cannot bound floating-point results; the flag and operand structure of the formulas is claimed under P03 instead",
    "N02": "a distributional statement about random draws; only the structure (draw uniform over the total, look up by prefix sum, write-back slots) is claimed, under B05",
    "N04": "bit-wise equality of whole runs depends on third-party kernels and scheduling; only the sources of randomness (P09) and seeding paths (E04) are decided statically",
    "N05": "timing and throughput are run-time quantities",
}
props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if core.RULES.get(i):
        names = [n for n, _ in core.RULES[i]]
        checks.append({
            "property": i,
            "quick_cmd": f"python3 check.py {i} --tier quick",
            "thorough_cmd": f"python3 check.py {i} --tier thorough",
            "technique": "static analysis: inlined control-flow graph with interned value terms; path, typestate, data-dependence and alias rules (" + ", ".join(names)[:160] + ")",
            "level": "other",
            "level_note": "Every listed rule instance holds on all paths of the control-flow graph built from the current source (helpers inlined, self-dispatch per class). "
            "Undecided instances are listed in the evidence and not claimed. Trusts declared types, documented behaviour of numpy/torch/gymnasium, and the graph builder.",
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "not built yet")})
json.dump({"version": 1, "setup_cmd": "python3 check.py --selftest", "checks": checks, "not_applicable": na,
           "notes": "Pure source analysis with the Python standard library; nothing from /repo is imported or executed by a check. /repo is read at SA_REPO (default /repo)."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", [x["property"] for x in na])

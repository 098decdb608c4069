"""Writes MANIFEST.json from registry.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from registry import CHECKS
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    c = CHECKS.get(p["id"])
    if c is None:
        na.append({"property": p["id"], "reason": "the check is still being built"})
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": f"python3 check.py {p['id']} --tier quick",
        "thorough_cmd": f"python3 check.py {p['id']} --tier thorough",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": c.get("technique", "TLA+ specification model checked with TLC; traces recorded from the code validated against it by TLC"),
        "level": c["level"],
        "level_note": c.get("note", "Exhaustive within the model's constants; the code is covered as far as the recorded scenarios reach. Trusts TLC, the exact arithmetic of java/Rat.java and the recording harness."),
    })
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks: the harness observes the code through its public interface and an injected pyomo solver. /repo carries fix: commits only."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)

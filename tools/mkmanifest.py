"""Writes MANIFEST.json from bin/config.py and properties.jsonl."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "bin"))
sys.dont_write_bytecode = True
from config import PROPS
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    c = PROPS.get(p["id"])
    if c is None:
        na.append({"property": p["id"], "reason": "its monitor is not built yet"})
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": f"bin/check {p['id']} quick",
        "thorough_cmd": f"bin/check {p['id']} thorough",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": c.get("technique", "runtime monitoring against a reference model"),
        "level": "exploration",
        "level_note": c.get("note", "Held on the executions observed (counts in the evidence file); says nothing about inputs the workload did not reach."),
    })
m = {"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every monitor observes the public interface of the real crates. See DESIGN.md."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")

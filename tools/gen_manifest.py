"""writes MANIFEST.json from dst/plan.py and properties.jsonl"""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, "tools"))
from dst.plan import PLAN
from na import NA

props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks = []
for c in props:
    if c not in PLAN:
        assert c in NA, c
        continue
    p = PLAN[c]
    checks.append(dict(
        property=c, quick_cmd=f"python3 run.py check {c} --tier quick", thorough_cmd=f"python3 run.py check {c} --tier thorough",
        evidence_file=f"evidence/{c}.json", technique="deterministic simulation with fault injection", level=p["level"],
        level_note="Seeded search over simulated executions of the real code (no exhaustiveness): " + p["rule"] + ". Assumes: " + "; ".join(p["assumptions"]) + "."))
m = dict(version=1, setup_cmd="python3 run.py setup", checks=checks,
         not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
         notes="No hooks in /repo: all seams (clocks, sleep, threads, locks, queues, file system, random generators, call sites) are replaced from outside, in the process that runs the simulation.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)

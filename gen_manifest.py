#!/usr/bin/env python3
"""Writes MANIFEST.json from plan.py and properties.jsonl (run by hand; output is committed)."""
import json
from plan import PLAN
NA = {}
ids = [json.loads(l)["id"] for l in open("properties.jsonl")]
TECH = "deterministic simulation with fault injection: seeded search over schedules, workloads and faults"
NOTE = ("Seeded exploration of simulated executions of the real code with injected faults; every verdict is judged by an oracle that knows the ground truth. "
        "Assurance is that of the sampled runs (counts in the evidence file); OpenSSL and the compiler are trusted.")
m = dict(version=1, setup_cmd="python3 simbuild.py " + " ".join(sorted({s["variant"] for p in PLAN.values() for s in p["scenarios"]})),
         checks=[dict(property=i, quick_cmd=f"python3 check.py {i} --tier quick", thorough_cmd=f"python3 check.py {i} --tier thorough", evidence_file=f"evidence/{i}.json",
                      technique=PLAN[i]["technique"] or TECH, level=PLAN[i]["level"], level_note=PLAN[i]["note"] or NOTE) for i in ids if i in PLAN],
         not_applicable=[dict(property=i, reason=NA.get(i, "check not built yet")) for i in ids if i not in PLAN],
         notes="No hooks in /repo: all seams are linker wraps, the plugin interface and compiler instrumentation. Replays: python3 check.py --replay FILE.")
json.dump(m, open("MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks")

#!/usr/bin/env python3
"""Writes MANIFEST.json. The properties that are claimed are those that have an entry in C"""
import json
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
GEN = "Sampling: no violation in the programs generated for the given seed; reach is shown by the counters in the evidence (constructs, distinct sources, executed blocks of the code). Trusts the constructive grammar of the harness as specification, and the accessors of the AST."
C = {}
def c(id, tech, note): C[id] = (tech, note)
exec(open('/verif/tools/claims.py').read())
m = {"version": 1, "setup_cmd": "cd /verif && ./build.sh plain && ./build.sh race && ./build.sh cli",
     "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo are needed: the checks build the packages of /repo's working tree through 'go build -overlay' with basic block counters inserted by 'go tool cover' (build.sh). run.sh <id> builds and runs one check; run.sh <id> <index> runs a single case again."}
for p in props:
    i = p["id"]
    if i in C:
        m["checks"].append({"property": i, "quick_cmd": f"./run.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough ./run.sh {i}",
                            "evidence_file": f"evidence/{i}.json", "technique": C[i][0], "level": "exploration", "level_note": C[i][1]})
    else:
        m["not_applicable"].append({"property": i, "reason": "No check yet (work in progress)."})
json.dump(m, open('/verif/MANIFEST.json','w'), indent=1)
print(len(m["checks"]), len(m["not_applicable"]))

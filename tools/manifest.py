#!/usr/bin/env python3
"""Source of MANIFEST.json (run: python3 tools/manifest.py)."""
import json, os
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
BASE = "Runs the real code; holds for every execution observed, not for those not generated. Trusts the independent codec in gopath/src/vf/ref and the Go runtime. "
SRV = "Trusts the in-process Bolt v1 server model in gopath/src/vf/boltsrv. "
C = {}
def c(id, technique, note, level="exploration"):
    C[id] = {"property": id, "quick_cmd": "bash run.sh %s quick" % id, "thorough_cmd": "bash run.sh %s thorough" % id,
             "technique": "runtime monitoring: " + technique, "level": level, "level_note": BASE + note}
exec(open(os.path.join(ROOT, "tools", "claims.py")).read())
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [C[i] for i in ids if i in C],
     "not_applicable": [{"property": i, "reason": NA.get(i, "check under construction")} for i in ids if i not in C]}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not claimed")

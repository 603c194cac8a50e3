#!/usr/bin/env python3
"""Write MANIFEST.json: one check per harness that exists, from checks.json."""
import json, os
top = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
notes = json.load(open(os.path.join(top, "tools", "checks.json")))
props = [json.loads(l)["id"] for l in open(os.path.join(top, "properties.jsonl"))]
checks, na = [], []
for p in props:
    n = notes.get(p)
    if n and os.path.exists(os.path.join(top, "harness", p + ".cpp")):
        checks.append({"property": p, "quick_cmd": "./check.sh " + p, "thorough_cmd": "./check.sh %s thorough" % p,
                       "evidence_file": "evidence/%s.json" % p,
                       "technique": "exhaustive exploration of thread schedules of the real code within a deviation bound" if p[0] == "C"
                       else "exhaustive enumeration of bounded cases on the real code, compared with a reference model",
                       "level": "model_checking", "level_note": n})
    elif n is None:
        pass
m = {"version": 1, "setup_cmd": "python3 tools/build.py all", "checks": checks, "not_applicable": na}
with open(os.path.join(top, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")

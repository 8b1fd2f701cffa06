#!/usr/bin/env python3
# Single source of properties.jsonl and MANIFEST.json.  Run after editing tools/props.py.
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, here)
from props import PROPS, NA
root = os.path.dirname(here)
with open(root + '/properties.jsonl', 'w') as f:
    for p in PROPS:
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "observe_at": p.get("observe", ["the byte streams the server sends on its connections"]), "hook_needed": None}
        if p.get("state"): a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
checks = [{"property": p["id"], "quick_cmd": "./check %s quick" % p["id"], "thorough_cmd": "./check %s thorough" % p["id"], "evidence_file": "evidence/%s.json" % p["id"],
           "technique": "deterministic simulation with fault injection: " + p["tech"], "level": "exploration", "level_note": p["note"]} for p in PROPS if p["id"] not in NA]
m = {"version": 1, "setup_cmd": "python3 sim/build.py", "hooks": {"guard": "IRCU_SIM", "enable": "no hooks were needed: the simulator interposes on the C library calls of the unmodified objects (objcopy --redefine-syms)", "source_commits": []},
     "checks": checks, "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()]}
json.dump(m, open(root + '/MANIFEST.json', 'w'), indent=1); open(root + '/MANIFEST.json', 'a').write("\n")

#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and checks.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import PROPS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": [], 
     "hooks": {"guard": "none", "enable": "no hooks: the checks drive the public API through /verif/driver, built against /repo's working tree", "source_commits": []},
     "notes": "One runner (run.py) for all checks; the families of scenarios and models per property are in checks.py."}
for i in ids:
    if i in PROPS:
        P = PROPS[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 run.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 run.py " + i,
                            "evidence_file": "evidence/%s.json" % i,
                            "technique": P.get("technique", "TLA+ specification; TLC validates traces of the real code against it and model checks it"),
                            "level": P.get("level", "model_checking"), "level_note": P["note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": NOT_APPLICABLE.get(i, "check not built yet")})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)

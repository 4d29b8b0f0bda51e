#!/usr/bin/env python3
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import config
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
m = dict(version=1, setup_cmd="bash tools/setup.sh", checks=[], not_applicable=[])
for p in props:
    if p in config.CHECKS:
        c = config.CHECKS[p]
        m["checks"].append(dict(property=p, quick_cmd="python3 tools/check.py " + p, thorough_cmd="python3 tools/check.py %s --tier thorough" % p,
                                evidence_file="evidence/%s.json" % p, technique=c["technique"], level=c["level"],
                                level_note=c["note"] + (" Not proved: " + c["unproved"] if c.get("unproved") else "")))
    else:
        m["not_applicable"].append(dict(property=p, reason=config.NOT_APPLICABLE.get(p, "not built yet")))
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)

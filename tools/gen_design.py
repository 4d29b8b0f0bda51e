#!/usr/bin/env python3
"""Fills sections 3 and 5 of DESIGN.md from config.py and seeded/."""
import glob, json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
import config
t = open(os.path.join(here, "DESIGN.tmpl.md")).read()
titles = {}
for l in open(os.path.join(here, "..", "properties.jsonl")):
    p = json.loads(l)
    titles[p["id"]] = p["title"]
out = []
for k, v in sorted(config.CHECKS.items()):
    out.append("**%s — %s** (`%s`, contracts %s)\n\n%s\n\n*Not proved:* %s.\n"
               % (k, titles[k], v["level"], ", ".join("`%s`" % c for c in v["contracts"]), v["note"], v.get("unproved", "nothing").rstrip(".")))
t = t.replace("@@PROPS@@", "\n".join(out))
t = t.replace("@@NA@@", "\n".join("* **%s %s**: %s." % (k, titles.get(k, ""), r) for k, r in sorted(config.NOT_APPLICABLE.items())))
rows = ["| id | breaks | needs | caught by |", "|---|---|---|---|"]
res = json.load(open(os.path.join(here, "seeds.json"))) if os.path.exists(os.path.join(here, "seeds.json")) else {}
for d in sorted(glob.glob(os.path.join(here, "..", "seeded", "*"))):
    m = json.load(open(os.path.join(d, "meta.json")))
    i = os.path.basename(d)
    rows.append("| %s | %s | %s | %s |" % (i, m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/"), res.get(i, m["property"])))
t = t.replace("@@SEEDS@@", "\n".join(rows))
open(os.path.join(here, "..", "DESIGN.md"), "w").write(t)

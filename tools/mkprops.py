#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the tables below"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "source/c-precompiled/sph-sp/"
P = []


def prop(id, title, statement, over, text, why, files, mech, technique=None, level_note=None, na=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, level_note=level_note, na=na, observe=observe))


exec(open(os.path.join(HERE, "tools", "proptable.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}
        f.write(json.dumps(d) + "\n")
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": []}
for p in P:
    if p["na"]:
        m["not_applicable"].append({"property": p["id"], "reason": p["na"]})
    else:
        m["checks"].append({"property": p["id"], "quick_cmd": "python3 -B check.py %s" % p["id"], "thorough_cmd": "python3 -B check.py %s --tier thorough" % p["id"], "technique": p["technique"], "level": "other", "level_note": p["level_note"]})
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties", len(m["checks"]), "checks")

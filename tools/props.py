#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: run it after editing."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, level="model_checking", technique="", note="", claimed=True, na=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                  mech=[dict(name=n, where=w) for n, w in mech], level=level, technique=technique, note=note, claimed=claimed, na=na))
CLAIMED = set(open(os.path.join(ROOT, "tools", "claimed.txt")).read().split())
exec(open(os.path.join(ROOT, "tools", "props_data.py")).read())
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=p["mech"], hook_needed=None))) + "\n")
checks, na = [], []
for p in P:
    if p["id"] in CLAIMED:
        checks.append(dict(property=p["id"], quick_cmd=f"./check.sh {p['id']} quick", thorough_cmd=f"./check.sh {p['id']} thorough",
            technique=p["technique"], level=p["level"], level_note=p["note"]))
    else:
        na.append(dict(property=p["id"], reason=p["na"] or "check under construction"))
m = dict(version=1, setup_cmd="./setup.sh", hooks=dict(guard="verif", enable="no hooks are needed: the checks drive exported API, the built binary, and build-time overlays generated from the current tree", source_commits=[]), checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")

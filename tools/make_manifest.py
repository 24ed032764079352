"""Writes MANIFEST.json from properties.jsonl and the check files that exist."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = json.load(open(os.path.join(V, "tools", "techniques.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl")) if l.strip()]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i.lower() + ".py")):
        t = TECH.get(i)
        if t is None:
            na.append(dict(property=i, reason="check not registered yet"))
            continue
        checks.append(dict(property=i, quick_cmd="/opt/venv/bin/python run.py %s --tier quick" % i,
                           thorough_cmd="/opt/venv/bin/python run.py %s --tier thorough" % i,
                           technique=t["technique"], level="exploration", level_note=t["note"]))
    else:
        na.append(dict(property=i, reason="no check built yet"))
json.dump(dict(version=1, setup_cmd="/opt/venv/bin/python vlib/build.py", checks=checks, not_applicable=na),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")

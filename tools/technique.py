#!/usr/bin/env python3
"""technique.py ID TECHNIQUE NOTE: set the manifest entry of a property and rewrite MANIFEST.json."""
import json, os, subprocess, sys
d = os.path.dirname(os.path.abspath(__file__))
p = os.path.join(d, "techniques.json")
t = json.load(open(p))
t[sys.argv[1]] = dict(technique=sys.argv[2], note=sys.argv[3])
json.dump(t, open(p, "w"), indent=1, sort_keys=True)
subprocess.check_call([sys.executable, os.path.join(d, "make_manifest.py")])

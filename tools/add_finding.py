#!/usr/bin/env python3
"""add_finding.py ID PROPERTY COMMIT TEXT  -- appends a 'fixed' entry to known_findings.jsonl"""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.jsonl")
i, prop, commit, text = sys.argv[1:]
with open(p, "a") as f:
    f.write(json.dumps(dict(id=i, property=prop, status="fixed", what="fixed: property=%s %s %s" % (prop, commit, text))) + "\n")

#!/usr/bin/env python3
"""plant.py ID PROPERTY [CHECK...] < spec.py : makes /verif/seeded/ID and tries it.

spec.py sets edits = [(file, old, new), ...], needs, breaks, demo (Python source) and lib (bool: minisim is needed).
The demo must pass on the unchanged tree and fail on the changed one; the property's check (and further ones named)
is then run on the changed copy."""
import json, os, shutil, subprocess, sys, tempfile

ident, prop, more = sys.argv[1], sys.argv[2], sys.argv[3:]
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
dest = os.path.join(here, "seeded", ident)
ns = {"lib": False}
SH = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
ln -s "$PWD" "$d/PyECLOUD"
mkdir "$d/run"
cd "$d/run" || exit 3
PYTHONPATH="$d:$here" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1 /opt/venv/bin/python "$here/demo.py" > log 2>&1
rc=$?
tail -n 5 log
exit $rc
'''
fresh = not sys.stdin.isatty()
text = sys.stdin.read() if fresh else ""
work = tempfile.mkdtemp(prefix="plant-", dir="/tmp")
copy = os.path.join(work, "repo")
try:
    subprocess.run(["cp", "-a", "/repo", copy], check=True)
    if text.strip():
        exec(text, ns)
        for f, old, new in ns["edits"]:
            p = os.path.join(copy, f)
            s = open(p).read()
            if s.count(old) != 1:
                sys.exit("%s: pattern occurs %d times: %r" % (f, s.count(old), old))
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", copy, "diff"], capture_output=True, text=True, check=True).stdout
        os.makedirs(dest, exist_ok=True)
        open(os.path.join(dest, "patch.diff"), "w").write(diff)
        open(os.path.join(dest, "demo.sh"), "w").write(SH)
        os.chmod(os.path.join(dest, "demo.sh"), 0o755)
        open(os.path.join(dest, "demo.py"), "w").write(ns["demo"].lstrip("\n"))
        if ns["lib"]:
            shutil.copy(os.path.join(here, "tools", "minisim.py"), dest)
        json.dump({"property": prop, "needs": ns["needs"], "what_it_breaks": ns["breaks"]},
                  open(os.path.join(dest, "meta.json"), "w"), indent=1)
    else:
        subprocess.run(["git", "-C", copy, "apply", os.path.join(dest, "patch.diff")], check=True)
    diff = open(os.path.join(dest, "patch.diff")).read()
    if any(l.startswith("+++") and l.rstrip().rsplit(".", 1)[-1] in ("f", "c", "pyx", "h", "pxd") for l in diff.splitlines()):
        # native code: the changed products are made by the package builder
        env = dict(os.environ, VERIF_REPO=copy)
        pk = os.path.join(work, "pk")
        subprocess.run([sys.executable, "-c", "import sys; sys.path.insert(0, %r); from vlib import build; "
                        "build.make_package(%r)" % (here, pk)], env=env, check=True)
        for n in os.listdir(os.path.join(pk, "PyECLOUD")):
            if n.endswith(".so"):
                shutil.copy2(os.path.join(pk, "PyECLOUD", n), copy)
    ok = lambda d: subprocess.run(["bash", os.path.join(dest, "demo.sh")], cwd=d, capture_output=True, text=True)
    a, b = ok("/repo"), ok(copy)
    print("demo: unchanged rc=%d %s | changed rc=%d %s" % (a.returncode, a.stdout[-300:] if a.returncode else "",
                                                        b.returncode, b.stdout[-300:].strip()))
    caught = []
    for c in [prop] + more:
        r = subprocess.run(["/opt/venv/bin/python", os.path.join(here, "run.py"), c], capture_output=True, text=True,
                           env=dict(os.environ, VERIF_REPO=copy, VERIF_SEED="1", VERIF_TIER="quick"))
        v = [l for l in r.stdout.splitlines() if "VIOLATION" in l]
        print("check %s rc=%d %s" % (c, r.returncode, "; ".join(x[:160] for x in v[:2]) or r.stdout[-200:]))
        if r.returncode == 1 and any("property=" + c in x for x in v):
            caught.append(c)
    p = os.path.join(here, "tools", "catches.json")
    try:
        t = json.load(open(p))
    except OSError:
        t = {}
    t[ident] = caught
    json.dump(t, open(p, "w"), indent=1, sort_keys=True)
finally:
    shutil.rmtree(work, ignore_errors=True)

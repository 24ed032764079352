"""Makes a scratch copy of the package from /repo's current working tree, with its native modules.

A native module is compiled from the current sources unless an identical build (same command, same source
contents) is available in /verif/.cache or, with a matching stamp, in /repo itself."""
import concurrent.futures
import glob
import hashlib
import json
import os
import shlex
import shutil
import subprocess
import sys
import tempfile

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(VERIF, ".cache", "native")
PY = "/opt/venv/bin/python"
F2PY = "/opt/venv/bin/f2py"
SKIP_DIRS = {".git", "testing", "doc", "build", "other", "progress", "__pycache__"}


class BuildError(Exception):
    pass


def _env():
    e = dict(os.environ)
    e["PATH"] = "/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    e.update(PYTHONDONTWRITEBYTECODE="1", CCACHE_DISABLE="1", MPLBACKEND="Agg", OMP_NUM_THREADS="1",
             OPENBLAS_NUM_THREADS="1")
    e.pop("PYTHONPATH", None)
    return e


def _digest(command, files, base):
    h = hashlib.sha256(repr(command).encode())
    for f in sorted(files):
        h.update(f.encode() + b"\0")
        p = os.path.join(base, f)
        h.update(open(p, "rb").read() if os.path.exists(p) else b"missing")
    return h.hexdigest()


def _jobs(base):
    jobs = []
    out = subprocess.run(["make", "-n", "all", "F2PY=" + F2PY], cwd=base, check=True, env=_env(),
                         stdout=subprocess.PIPE, text=True).stdout
    for line in out.splitlines():
        command = shlex.split(line)
        if command[:1] != [F2PY]:
            raise BuildError("unexpected command in the Makefile: " + line)
        jobs.append(([command[command.index("-m") + 1]], command, [a for a in command if a.endswith(".f")]))
    rel = lambda pat: [os.path.relpath(p, base) for p in glob.glob(os.path.join(base, pat))]
    pyx = sorted(rel("*.pyx"))
    jobs.append(([p[:-4] for p in pyx], [PY, "setup.py", "build_ext", "-i", "-f"],
                 pyx + rel("*.pxd") + rel("*.h") + ["boris_c_function.c", "setup.py"]))
    return jobs


def _products(d, names):
    return [p for n in names for p in glob.glob(os.path.join(d, n + ".*.so"))]


def _one(job, pkg, stamps):
    names, command, files = job
    want = _digest(command, files, REPO)
    key = "+".join(names)
    cdir = os.path.join(CACHE, want)
    src = None
    if len(_products(cdir, names)) == len(names):
        src = cdir
    elif stamps.get(key) == want and len(_products(REPO, names)) == len(names):
        src = REPO
    if src is None:
        with tempfile.TemporaryDirectory(prefix="verif-nat-") as tmp:
            work = os.path.join(tmp, "w")
            shutil.copytree(pkg, work, ignore=shutil.ignore_patterns("*.so"))
            p = subprocess.run(command, cwd=work, env=_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, errors="replace")
            prods = _products(work, names)
            if p.returncode != 0 or len(prods) != len(names):
                raise BuildError("building %s failed:\n%s" % (key, p.stdout[-3000:]))
            for q in prods:
                shutil.copy2(q, pkg)
            try:
                os.makedirs(CACHE, exist_ok=True)
                t2 = tempfile.mkdtemp(dir=CACHE)
                for q in prods:
                    shutil.copy2(q, t2)
                try:
                    os.rename(t2, cdir)
                except OSError:
                    shutil.rmtree(t2, ignore_errors=True)
            except OSError:
                pass
        return
    for q in _products(src, names):
        shutil.copy2(q, pkg)


def make_package(root):
    """Create root/PyECLOUD from the current tree of REPO. Returns root."""
    pkg = os.path.join(root, "PyECLOUD")
    os.makedirs(pkg)
    for name in os.listdir(REPO):
        p = os.path.join(REPO, name)
        if os.path.isdir(p):
            if name not in SKIP_DIRS and not os.path.islink(p):
                shutil.copytree(p, os.path.join(pkg, name))
        elif not name.endswith(".so") and os.path.isfile(p):
            shutil.copy2(p, pkg)
    try:
        stamps = json.load(open(os.path.join(REPO, "build", "vp-stamps.json")))
    except (OSError, ValueError):
        stamps = {}
    jobs = _jobs(pkg)
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda j: _one(j, pkg, stamps), jobs))
    return root


if __name__ == "__main__":
    with tempfile.TemporaryDirectory(prefix="verif-setup-") as t:
        make_package(t)
        print(sorted(os.listdir(os.path.join(t, "PyECLOUD"))))

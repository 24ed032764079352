"""Runs the generated-input search for one property.

A check file (checks/cNN.py) creates a Check and registers sub-checks.  Each sub-check is a Hypothesis strategy that
yields a JSON-serialisable case and a function that runs the real code on the case and raises Violation when the
oracle disagrees.  A case is the whole input: replaying the JSON reproduces the run."""
import argparse
import hashlib
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import zlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYVENV_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
CASE_LIMIT_S = 200


class Violation(Exception):
    """The property is broken on this case.  `known` names the known finding this is an instance of, if any."""

    def __init__(self, msg, known=None):
        super().__init__(msg)
        self.known = known


class HarnessError(Exception):
    pass


class CaseTimeout(Exception):
    pass


def require(cond, msg, known=None):
    if not cond:
        raise Violation(msg() if callable(msg) else msg, known)


class Sub:
    def __init__(self, name, strategy, fn, quick, thorough, shards, thorough_shards):
        self.name, self.strategy, self.fn = name, strategy, fn
        self.quick, self.thorough, self.shards, self.thorough_shards = quick, thorough, shards, thorough_shards


class Check:
    def __init__(self, pid, rule, assumptions=()):
        self.pid, self.rule, self.assumptions = pid, rule, list(assumptions)
        self.subs = {}

    def sub(self, name, strategy, quick=100, thorough=None, shards=1, thorough_shards=4):
        def deco(fn):
            self.subs[name] = Sub(name, strategy, fn, quick, thorough or quick * 20, shards, thorough_shards)
            return fn
        return deco


def known_findings(pid):
    out = {}
    path = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line:
                d = json.loads(line)
                if d.get("status") == "known" and d["property"] == pid:
                    out[d["id"]] = d
    return out


def canon(spec):
    return json.dumps(spec, sort_keys=True)


def run_case(sub, spec):
    """Runs one case with the state of the process reset. Returns (label, failure) where failure is None or a dict."""
    import numpy as np
    np.random.seed(zlib.crc32(canon(spec).encode()) & 0x7FFFFFFF)
    import random
    random.seed(0)

    def onalarm(*_):
        raise CaseTimeout("case did not finish within %d s" % CASE_LIMIT_S)
    signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(CASE_LIMIT_S)
    try:
        label = sub.fn(spec)
        return label, None
    except HarnessError:
        raise
    except Violation as v:
        return None, dict(kind="violation", msg=str(v), known=v.known)
    except CaseTimeout as e:
        return None, dict(kind="hang", msg=str(e), known=None)
    except Exception as e:
        if type(e).__module__.startswith("hypothesis"):
            raise
        return None, dict(kind="exception", msg="".join(traceback.format_exception(e))[-3000:], known=None)
    finally:
        signal.alarm(0)


# ------------------------------------------------------------------ worker

def worker(check, name, shard, tier, seed, outpath, replay=None):
    sub = check.subs[name]
    kf = known_findings(check.pid)
    res = dict(sub=name, shard=shard, evaluations=0, nontrivial=[], samples=[], classes={}, known={}, failure=None,
               error=None, skipped=0)
    cur = outpath + ".cur"

    def dump():
        t = outpath + ".t"
        with open(t, "w") as f:
            json.dump(res, f)
        os.replace(t, outpath)

    seen = set()
    best = [None]          # (size, spec, failure)
    t0 = time.time()
    budget = 420 if tier == "quick" else float(os.environ.get("VERIF_THOROUGH_S", "3600"))
    tfail = [None]

    class Stop(Exception):
        pass

    def body(spec):
        now = time.time()
        if tfail[0] is None and now - t0 > budget:
            res["skipped"] += 1
            return
        if tfail[0] is not None and now - tfail[0] > (45 if tier == "quick" else 180):
            if best[0] is not None and canon(spec) == canon(best[0][1]):
                raise Stop()
            return
        with open(cur, "w") as f:
            json.dump(dict(t=now, spec=spec), f)
        label, failure = run_case(sub, spec)
        res["evaluations"] += 1
        if failure is not None:
            if failure["known"] and failure["known"] in kf:
                res["known"][failure["known"]] = res["known"].get(failure["known"], 0) + 1
                return
            c = canon(spec)
            if best[0] is None or len(c) <= best[0][0]:
                best[0] = (len(c), spec, failure)
            if tfail[0] is None:
                tfail[0] = time.time()
            raise Stop()
        if label:
            h = hashlib.blake2b(canon(spec).encode(), digest_size=8).hexdigest()
            if h not in seen:
                seen.add(h)
                if len(res["samples"]) < 2:
                    res["samples"].append(spec)
        for lb in ([label] if isinstance(label, str) else label if isinstance(label, (list, tuple)) else []):
            res["classes"][lb] = res["classes"].get(lb, 0) + 1

    try:
        # explicit witnesses of known findings first
        for kid, d in kf.items():
            if d.get("sub") == name and shard == 0:
                label, failure = run_case(sub, d["spec"])
                res["evaluations"] += 1
                if failure is not None:
                    if failure["known"] == kid:
                        res["known"][kid] = res["known"].get(kid, 0) + 1
                    else:
                        best[0] = (0, d["spec"], failure)
        if replay is not None:
            label, failure = run_case(sub, replay)
            res["evaluations"] = 1
            if failure is not None and not (failure["known"] and failure["known"] in kf):
                res["failure"] = dict(spec=replay, **failure)
            dump()
            return
        import hypothesis
        from hypothesis import given, settings, HealthCheck, Phase
        n = sub.quick if tier == "quick" else sub.thorough
        shards = sub.shards if tier == "quick" else sub.thorough_shards
        n = max(1, -(-n // shards))

        @hypothesis.seed(seed * 1009 + shard * 9176 + zlib.crc32(name.encode()) % 1000003)
        @settings(max_examples=n, deadline=None, database=None, suppress_health_check=list(HealthCheck),
                  phases=[Phase.generate, Phase.shrink], print_blob=False, report_multiple_bugs=False)
        @given(sub.strategy)
        def test(spec):
            body(spec)

        try:
            test()
        except HarnessError:
            raise
        except BaseException as e:
            if best[0] is None:
                raise
        if best[0] is not None:
            res["failure"] = dict(spec=best[0][1], **best[0][2])
    except BaseException as e:
        res["error"] = "".join(traceback.format_exception(e))[-4000:]
    res["nontrivial"] = sorted(seen)
    dump()


# ------------------------------------------------------------------ parent

def _child_env(root, seed):
    e = dict(os.environ)
    e["PYTHONPATH"] = root + ":" + VERIF
    e.update(PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
             NUMBA_NUM_THREADS="1", PYTHONHASHSEED="0", PYTHONWARNINGS="ignore", VERIF_PKGROOT=root,
             MPLCONFIGDIR=os.path.join(root, "mpl"))
    return e


def _warm(root):
    """Matplotlib's font list is made once here: many workers making it at the same time wait for its lock and fail."""
    try:
        subprocess.run(["/opt/venv/bin/python", "-c", "import matplotlib.font_manager"], env=_child_env(root, 1), timeout=120,
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, cwd=root)
    except Exception:
        pass


def _spawn(pid, name, shard, tier, seed, root, tmp, replay=None):
    out = os.path.join(tmp, "%s.%d.json" % (name, shard))
    cmd = ["/opt/venv/bin/python", os.path.join(VERIF, "run.py"), pid, "--worker", name, "--shard", str(shard),
           "--tier", tier, "--seed", str(seed), "--out", out]
    if replay:
        cmd += ["--spec", replay]
    cwd = os.path.join(tmp, "cwd-%s-%d" % (name, shard))
    os.makedirs(cwd, exist_ok=True)
    log = open(out + ".log", "w")
    p = subprocess.Popen(cmd, cwd=cwd, env=_child_env(root, seed), stdout=log, stderr=subprocess.STDOUT,
                         start_new_session=True)
    return p, out


def _kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    p.wait()


def _collect(p, out, rc, name, shard, timed_out):
    """Turn what a worker left behind into a result dict."""
    if os.path.exists(out):
        try:
            return json.load(open(out))
        except ValueError:
            pass
    log = open(out + ".log", errors="replace").read()[-3000:]
    res = dict(sub=name, shard=shard, evaluations=0, nontrivial=[], samples=[], classes={}, known={}, failure=None,
               error=None, skipped=0)
    cur = None
    if os.path.exists(out + ".cur"):
        try:
            cur = json.load(open(out + ".cur"))
        except ValueError:
            pass
    if cur is not None and (rc in (-11, -6, -8, -4, -7) or timed_out):
        res["failure"] = dict(spec=cur["spec"], kind="crash" if not timed_out else "hang", known=None,
                              msg="the process running this case %s\n%s" %
                              ("was ended after it did not finish" if timed_out else "died with signal %d" % -rc, log))
        res["evaluations"] = 1
    else:
        res["error"] = "worker ended with code %s\n%s" % (rc, log)
    return res


def run_workers(pid, tasks, tier, seed, root, tmp, replay=None, limit=None):
    limit = limit or (800 if tier == "quick" else float(os.environ.get("VERIF_THOROUGH_S", "3600")) + 900)
    maxpar = int(os.environ.get("VERIF_JOBS", os.cpu_count() or 8))
    todo, running, results = list(tasks), [], []
    t0 = time.time()
    while todo or running:
        while todo and len(running) < maxpar:
            name, shard = todo.pop(0)
            p, out = _spawn(pid, name, shard, tier, seed, root, tmp, replay)
            running.append((p, out, name, shard))
        time.sleep(0.05)
        for item in list(running):
            p, out, name, shard = item
            rc = p.poll()
            timed = False
            if rc is None:
                # a native loop does not see the alarm
                try:
                    st = os.stat(out + ".cur")
                    if time.time() - st.st_mtime > CASE_LIMIT_S + 60:
                        timed = True
                except OSError:
                    pass
                if not timed and time.time() - t0 < limit:
                    continue
                if not timed:
                    _kill(p)
                    running.remove(item)
                    r = _collect(p, out, -9, name, shard, False)
                    results.append(r)
                    continue
                _kill(p)
                rc = -9
            running.remove(item)
            results.append(_collect(p, out, rc, name, shard, timed))
            _kill(p)   # leftovers of the session
    return results


def parent(check, tier, seed, only=None):
    from . import build
    t0 = time.time()
    pid = check.pid
    base = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    rc = 0
    try:
        try:
            root = build.make_package(os.path.join(base, "root"))
        except Exception as e:
            print("HARNESS-ERROR: cannot build the package from the current tree:\n%s" % e)
            return 2
        tmp = os.path.join(base, "w")
        os.makedirs(tmp)
        _warm(root)
        tasks = []
        for s in check.subs.values():
            if only and s.name not in only:
                continue
            for k in range(s.shards if tier == "quick" else s.thorough_shards):
                tasks.append((s.name, k))
        # longest (most sharded / most examples) first is not known; keep declaration order, shards interleaved
        results = run_workers(pid, tasks, tier, seed, root, tmp)
        errors = [r for r in results if r["error"]]
        fails = [r for r in results if r["failure"]]
        known = {}
        for r in results:
            for k, v in r["known"].items():
                known[k] = known.get(k, 0) + v
        nontriv = set()
        per = {}
        samples = []
        for r in results:
            nontriv |= {(r["sub"], h) for h in r["nontrivial"]}
            d = per.setdefault(r["sub"], dict(evaluations=0, nontrivial=0, classes={}, skipped=0))
            d["evaluations"] += r["evaluations"]
            d["nontrivial"] += len(r["nontrivial"])
            d["skipped"] += r["skipped"]
            for k, v in r["classes"].items():
                d["classes"][k] = d["classes"].get(k, 0) + v
            for s in r["samples"][:2]:
                if sum(1 for x in samples if x["sub"] == r["sub"]) < 2:
                    samples.append(dict(sub=r["sub"], case=s))
        ev = dict(property=pid, tier=tier, seed=seed, level="exploration",
                  coverage=dict(evaluations=sum(r["evaluations"] for r in results),
                                distinct_nontrivial=len(nontriv), rule=check.rule, samples=samples,
                                per_subcheck=per, known_finding_hits=known),
                  assumptions=check.assumptions, wall_s=round(time.time() - t0, 2), violations=len(fails))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        evp = os.path.join(VERIF, "evidence", pid + ".json")
        with open(evp + ".t", "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(evp + ".t", evp)
        for name, d in per.items():
            print("  %-32s cases=%d nontrivial=%d%s %s" % (name, d["evaluations"], d["nontrivial"],
                  " skipped=%d" % d["skipped"] if d["skipped"] else "",
                  json.dumps(d["classes"], sort_keys=True) if d["classes"] else ""))
        kf = known_findings(pid)
        for k in sorted(known):
            print("KNOWN-FINDING: property=%s %s: %s" % (pid, k, kf[k]["what"]))
        for r in fails:
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            spec = r["failure"]["spec"]
            h = hashlib.blake2b(canon(spec).encode(), digest_size=5).hexdigest()
            path = os.path.join(VERIF, "replays", "%s-%s-%s.json" % (pid, r["sub"], h))
            with open(path, "w") as f:
                json.dump(dict(property=pid, sub=r["sub"], spec=spec, kind=r["failure"]["kind"],
                               msg=r["failure"]["msg"]), f, indent=1)
            print("--- %s / %s (%s)\n%s\ncase: %s" % (pid, r["sub"], r["failure"]["kind"], r["failure"]["msg"],
                                                      canon(spec)[:1500]))
            print("VIOLATION property=%s replay=%s" % (pid, path))
            rc = 1
        for r in errors:
            print("HARNESS-ERROR in %s shard %s:\n%s" % (r["sub"], r["shard"], r["error"]))
        if errors and rc == 0:
            rc = 2
        print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d violations, %.1f s" %
              (pid, tier, seed, ev["coverage"]["evaluations"], len(nontriv), len(fails), time.time() - t0))
        return rc
    finally:
        shutil.rmtree(base, ignore_errors=True)


def replay_cmd(check, path):
    from . import build
    d = json.load(open(path))
    base = tempfile.mkdtemp(prefix="verif-replay-")
    try:
        root = build.make_package(os.path.join(base, "root"))
        tmp = os.path.join(base, "w")
        os.makedirs(tmp)
        _warm(root)
        sp = os.path.join(base, "spec.json")
        json.dump(d["spec"], open(sp, "w"))
        r = run_workers(check.pid, [(d["sub"], 0)], "quick", 1, root, tmp, replay=sp)[0]
        if r["error"]:
            print("HARNESS-ERROR:", r["error"])
            return 2
        if r["failure"]:
            print(r["failure"]["msg"])
            print("VIOLATION property=%s replay=%s" % (check.pid, path))
            return 1
        print("replay passes")
        return 0
    finally:
        shutil.rmtree(base, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--only", action="append")
    ap.add_argument("--worker")
    ap.add_argument("--shard", type=int, default=0)
    ap.add_argument("--out")
    ap.add_argument("--spec")
    a = ap.parse_args()
    if a.worker:
        # the code under test prints a lot
        import resource
        lim = 10 * 2 ** 30
        resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        log = sys.stderr
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        sys.path.append(PYVENV_SITE)
        check = importlib.import_module("checks." + a.pid.lower()).check
        rp = json.load(open(a.spec)) if a.spec else None
        worker(check, a.worker, a.shard, a.tier, a.seed, a.out, rp)
        return 0
    sys.path.append(PYVENV_SITE)
    os.environ["VERIF_PARENT"] = "1"
    check = importlib.import_module("checks." + a.pid.lower()).check
    if a.replay:
        return replay_cmd(check, a.replay)
    return parent(check, a.tier, a.seed, a.only)

"""C17: an interrupted and resumed run against the uninterrupted one; interruptions while files are being written."""
import glob
import os
import pickle
import shutil

import numpy as np
import scipy.io as sio
from hypothesis import strategies as st

from checks import c16
from vlib import buildup as bu, gen, pye, sey
from vlib.harness import Check, require

fl, logfl = gen.fl, gen.logfl

check = Check("C17", rule="a case is non-trivial when a checkpoint or state was written, the run was really taken up from it and at least five steps with macroparticles followed",
              assumptions=["random numbers are set anew before every time step from its number, in both runs, so that only what the state keeps can make a difference",
                           "no regeneration is configured, since the one of the checkpoint step draws random numbers inside the loading",
                           "the output folder is backed up (copy_main_outp_folder), as the manual requires for checkpoints",
                           "a start that is refused with an error counts as correct after an interruption in the middle of a write; another interruption never does"])


class Crash(BaseException):
    pass


def seed_of(s, i):
    return (s["seed"] * 7919 + 104729 * i + 17) % 2 ** 31


def drive(sim, s, stop=None, seen=None):
    """Steps until the end (or up to the step number stop), seeding before every step; returns last step."""
    sp = bu.Stepper(sim)
    n = 0
    while not sp.done() and (stop is None or sp.i < stop):
        np.random.seed(seed_of(s, sp.i + 1))
        if not sp.step():
            break
        n += 1
        if seen is not None and not seen and checkpoints():
            seen.append(sp.i)
        if any(cl.MP_e.N_mp > 15000 for cl in sim.cloud_list):
            return sp.i, True
    return sp.i, False


def fields(sim):
    p = sim.spacech_ele
    out = [np.array(sim.beamtim.tt_curr), np.array(sim.beamtim.pass_numb)]
    if np.ndim(p.efx):
        out += [np.array(p.efx), np.array(p.efy), np.array(p.rho)]
    return out


def same(a, b, what, tol=0.0):
    a, b = np.asarray(a), np.asarray(b)
    require(a.shape == b.shape, lambda: "%s: shape %s, uninterrupted run %s" % (what, a.shape, b.shape))
    if a.size and a.dtype.kind in "fiub" and b.dtype.kind in "fiub":
        a, b = a.astype(float), b.astype(float)
        sc = np.max(np.abs(b[np.isfinite(b)]), initial=0.0)
        bad = ~((np.abs(a - b) <= tol * sc) | (a == b) | (np.isnan(a) & np.isnan(b)))
        if bad.any():
            k = tuple(int(q[0]) for q in np.nonzero(bad))
            require(False, "%s: %d of %d entries differ from the uninterrupted run, e.g. %s: %.10g instead of %.10g" % (what, bad.sum(), a.size, k, a[k], b[k]))


def results(folder):
    """All result files of a folder: relative name -> variables."""
    out = {}
    for f in sorted(glob.glob(os.path.join(folder, "**", "*"), recursive=True)):
        rel = os.path.relpath(f, folder)
        if os.path.isdir(f) or rel.startswith(("chk", "bak")):
            continue
        if os.path.basename(f).startswith(("Pyecltest", "MP_state")) or "_video" in rel:
            try:
                d = sio.loadmat(f)
            except Exception:
                d = {"unreadable": np.array(1)}
            out[rel] = {k: v for k, v in d.items() if not k.startswith("__")}
    return out


def compare(R, A, tol=1e-9):
    require(sorted(R) == sorted(A), lambda: "result files %s, uninterrupted run %s" % (sorted(set(R) - set(A)), sorted(set(A) - set(R))))
    for f in A:
        require(sorted(R[f]) == sorted(A[f]), lambda: "%s: variables only in the resumed run %s, only in the uninterrupted one %s" % (
            f, sorted(set(R[f]) - set(A[f])), sorted(set(A[f]) - set(R[f]))))
        for k in A[f]:
            same(R[f][k], A[f][k], "%s, %s" % (f, k), tol)


def configure(s):
    s = dict(s, regen=None, o=dict(s["o"], custom=False, sec=s["o"]["sec"]))
    if s["em"]:
        s["track"] = "BorisMultipole"
    cfg = c16.configure(s)
    D = s["ck"]
    b = cfg["beam"]["b_spac"]
    cfg["sim"].update(checkpoint_DT=D["dt"] * b, checkpoint_folder=D["dir"], copy_main_outp_folder=D["bak"])
    if D["copy"]:
        cfg["sim"]["copy_main_outp_DT"] = D["copy"] * b
    if s.get("xion") and cfg["clouds"]:
        # a target thin enough to be depleted
        X, Y = bu.half_size(s["ch"])
        dens = 40 * s["dens"]
        v = np.sqrt(2 * 100.0 * gen.E_CH / gen.M_E)
        cfg["sim"]["cross_ion_definitions"] = {"electron": {"a": dict(
            target_density=dens, E_eV_init=0.5, extract_sigma=False, cross_section="cs.mat", products=["electron", "ions"])}}
        cfg["mats"]["cs.mat"] = dict(energy_eV=np.array([1.0, 100.0, 1e4]), cross_section_cm2=np.array([0.5, 1.0, 0.3]) * 0.02 / (dens * v * cfg["sim"]["Dt"]) * 1e4)
    if s["em"]:
        cfg["sim"]["flag_em_tracking"] = True
        if cfg["sim"].get("Dt_sc") is None:
            cfg["sim"]["Dt_sc"] = cfg["sim"]["Dt"]
    return cfg


def prepare(cfg, s):
    if s["o"]["folder"]:
        os.makedirs("res/ults", exist_ok=True)
    os.makedirs("bak", exist_ok=True)
    bu.write(cfg)


def start(s, i=-1):
    np.random.seed(seed_of(s, -7 - i))
    kw = {}
    if s["ck"].get("pbp"):
        kw["pass_by_pass_custom_observables"] = {"my_pass": lambda sim: 5.0 + sim.beamtim.pass_numb, "my_vec": lambda sim: np.array([sim.beamtim.tt_curr, 2.0])}
    return bu.make(**kw)


def whole(cfg, s):
    """The uninterrupted run."""
    with pye.TempDir():
        prepare(cfg, s)
        sim = start(s)
        seen = []
        n, big = drive(sim, s, seen=seen)
        return results("."), [bu.table(c) for c in sim.cloud_list], fields(sim), n, big, (seen or [None])[0]


def checkpoints():
    return sorted(glob.glob("chk/*"))


def finish(s, cfg, A, tabs, fA, labels):
    """Takes up the run in the present folder, runs to the end and compares everything."""
    sim = start(s, 3)
    i0 = bu.Stepper(sim).i
    n, big = drive(sim, s)
    t0 = len(sim.cloud_list)
    for k, cl in enumerate(sim.cloud_list):
        same(bu.table(cl), tabs[k], "final macroparticles of %s (taken up at step %d)" % (cl.name, i0), 1e-10)
    for a, b, w in zip(fields(sim), fA, ("time", "passage", "x field", "y field", "charge density")):
        same(a, b, "final " + w, 1e-9)
    compare(results("."), A)
    if i0 >= 0 and n - i0 >= 5 and any(len(q) for q in tabs):
        labels.append("resumed")
        if "cross_ion_definitions" in cfg["sim"]:
            labels.append("cross-ionization")
    return i0


ck = st.fixed_dictionaries(dict(dt=st.sampled_from([0.07, 0.15, 0.3, 1.0, 1.0, 1.7, 2.0]), copy=st.sampled_from([0, 0, 1.0, 2.5]), stop=fl(0.0, 1.0),
                                again=fl(0.0, 1.0), dir=st.sampled_from(["./chk/", "chk", "chk/"]), bak=st.sampled_from(["./bak/", "bak"]), pbp=st.booleans()))
patterns = st.lists(st.sampled_from([1.0, 1.0, 0.5, 0.0]), min_size=2, max_size=5)
ems = st.sampled_from([False, False, True])


@check.sub("checkpoint", bu.with_(o=c16.opts, ck=ck, em=ems, xion=st.booleans(), pattern=patterns), quick=120, thorough=3000, shards=6, thorough_shards=8)
def checkpoint(s):
    """Killed between two steps, once or twice."""
    sey.no_sleep()
    cfg = configure(s)
    A, tabs, fA, n, big, first = whole(cfg, s)
    if big or first is None:
        return None
    labels = []
    with pye.TempDir():
        prepare(cfg, s)
        sim = start(s)
        drive(sim, s, stop=first + int(s["ck"]["stop"] * (n - first)))
        del sim
        if s["ck"]["again"] > 0.6:
            sim = start(s, 1)
            i1 = bu.Stepper(sim).i
            require(i1 >= 0, "a checkpoint exists but the run starts from the beginning")
            drive(sim, s, stop=int(i1 + (n - i1) * s["ck"]["again"] * 0.5))
            del sim
            labels.append("twice")
        i0 = finish(s, cfg, A, tabs, fA, labels)
        require(i0 >= 0, "a checkpoint exists but the run starts from the beginning")
    return labels if "resumed" in labels else None


@check.sub("many", bu.with_(o=c16.opts, ck=ck, em=st.just(False), xion=st.just(False), steps=st.integers(5, 7), nmp=st.integers(20, 60),
                            pattern=st.lists(st.sampled_from([1.0, 0.5, 0.0]), min_size=11, max_size=22)), quick=24, thorough=600, shards=2, thorough_shards=4)
def many(s):
    """Long enough for two-digit checkpoint numbers; killed in the second half."""
    s = dict(s, ck=dict(s["ck"], dt=0.5, stop=0.5 + 0.5 * s["ck"]["stop"]))
    return checkpoint(s)


class Saboteur:
    """The n-th file operation of the saver fails: before, in the middle of, or after its effect."""

    def __init__(self, n, how):
        self.n, self.how, self.count, self.fired = n, how, 0, None
        self.log = []
        self.saved = []

    def wrap(self, mod, name, half):
        real = getattr(mod, name)
        self.saved.append((mod, name, real))

        def f(*a, **k):
            self.count += 1
            self.log.append(name)
            if self.count - 1 != self.n:
                return real(*a, **k)
            self.fired = "%s of %s %d" % (self.how, name, self.n)
            if self.how == "middle":
                half(real, a, k)
            elif self.how == "after":
                real(*a, **k)
            raise Crash(self.fired)
        setattr(mod, name, f)

    def __enter__(self):
        def half_dump(real, a, k):
            b = pickle.dumps(a[0], protocol=-1)
            a[1].write(b[:len(b) // 2])
            a[1].flush()

        def half_mat(real, a, k):
            real(*a, **k)
            f = a[0] if isinstance(a[0], str) else a[0].name
            f = f if os.path.exists(f) else f + ".mat"
            os.truncate(f, os.path.getsize(f) // 2)

        def half_copy(real, a, k):
            real(*a, **k)
            f = a[1] if os.path.isfile(a[1]) else os.path.join(a[1], os.path.basename(a[0]))
            os.truncate(f, os.path.getsize(f) // 2)

        self.wrap(pickle, "dump", half_dump)
        self.wrap(sio, "savemat", half_mat)
        self.wrap(shutil, "copy", half_copy)
        self.wrap(os, "remove", lambda real, a, k: None)
        return self

    def __exit__(self, *e):
        for mod, name, real in self.saved:
            setattr(mod, name, real)


@check.sub("torn", bu.with_(o=c16.opts, ck=ck, em=ems, xion=st.booleans(), pattern=patterns, how=st.sampled_from(["before", "middle", "middle", "after"])),
           quick=120, thorough=3000, shards=6, thorough_shards=8)
def torn(s):
    """Killed while a file is being written, copied or removed."""
    sey.no_sleep()
    s = dict(s, o=dict(s["o"], folder=False, rho=False, sc=False, mps=[]))
    cfg = configure(s)
    labels = []
    with pye.TempDir():
        prepare(cfg, s)
        with Saboteur(-1, "count") as sab:
            sim = start(s)
            n, big = drive(sim, s)
        A, tabs, fA = results("."), [bu.table(c) for c in sim.cloud_list], fields(sim)
        ops = sab.count
    if big or "dump" not in sab.log:
        return None
    # mostly from the first checkpoint on
    lo = sab.log.index("dump") if s["seed"] % 8 else 0
    with pye.TempDir():
        prepare(cfg, s)
        with Saboteur(min(lo + int(gen.rng(s["seed"]).rand() * (ops - lo)), ops - 1), s["how"]) as sab:
            try:
                sim = start(s)
                drive(sim, s)
                return None
            except Crash:
                pass
        had = checkpoints()
        try:
            sim = start(s, 3)
        except Exception as e:
            return ["refused"]
        if bu.Stepper(sim).i < 0:
            require(not had, "a checkpoint exists but the run starts from the beginning")
            return None
        del sim
        shutil.rmtree("new", ignore_errors=True)
        finish(s, cfg, A, tabs, fA, labels)
    return labels + [s["how"]] if labels else None


@check.sub("state", bu.with_(o=c16.opts, ck=ck, em=ems, xion=st.booleans(), pattern=patterns, when=st.lists(fl(0, 1.0), min_size=1, max_size=2), file=st.booleans()), quick=80, thorough=2000, shards=4, thorough_shards=8)
def state(s):
    """A state requested at given instants, loaded into a fresh simulation."""
    sey.no_sleep()
    s = dict(s, o=dict(s["o"], folder=False, rho=False, sc=False, mps=[]))
    cfg = configure(s)
    for k in ("checkpoint_DT", "checkpoint_folder", "copy_main_outp_folder", "copy_main_outp_DT"):
        cfg["sim"].pop(k, None)
    T = bu.time_axis(cfg)[-1]
    when = sorted(float(f * T) for f in s["when"])
    cfg["sim"]["save_simulation_state_time_file"] = when
    if s["file"]:
        cfg["mats"]["when.mat"] = dict(t_obs=np.array(when))
        cfg["sim"]["save_simulation_state_time_file"] = "when.mat"
    labels = []
    with pye.TempDir():
        prepare(cfg, s)
        sim = start(s)
        tabs, sp, big = [], bu.Stepper(sim), False
        seen = {}
        while not sp.done():
            np.random.seed(seed_of(s, sp.i + 1))
            sp.step()
            for j in range(len(when)):
                if j not in seen and os.path.exists("simulation_state_%d.pkl" % j):
                    seen[j] = sp.i
            if any(cl.MP_e.N_mp > 15000 for cl in sim.cloud_list):
                return None
        n = sp.i
        names = [c.pyeclsaver.filen_main_outp for c in sim.cloud_list]
        A = [bu.load_out(f) for f in names] if all(os.path.exists(f) for f in names) else None
        tabs, fA = [bu.table(c) for c in sim.cloud_list], fields(sim)
        t_all = bu.time_axis(cfg)
        last = -1
        for j, tt in enumerate(when):
            i = max(int(np.searchsorted(t_all, tt)), last + 1)
            if i > n:
                require(j not in seen, "state %d saved before its time" % j)
                break
            require(seen.get(j) == i, lambda: "state %d (t = %.4g s): saved at step %s, expected %d" % (j, tt, seen.get(j), i))
            last = i
        if A is None or 0 not in seen:
            return None
        j = max(seen)
        i0 = seen[j]
        np.random.seed(5)
        sim = bu.make()
        sim.load_state("simulation_state_%d.pkl" % j)
        require(bu.Stepper(sim).i == i0, "the loaded simulation does not stand at the step at which it was saved")
        drive(sim, s)
        for k, cl in enumerate(sim.cloud_list):
            same(bu.table(cl), tabs[k], "final macroparticles of %s (taken up at step %d)" % (cl.name, i0), 1e-10)
        for a, b, w in zip(fields(sim), fA, ("time", "passage", "x field", "y field", "charge density")):
            same(a, b, "final " + w, 1e-9)
        # the new file holds what comes after, and the old one is untouched
        for k, cl in enumerate(sim.cloud_list):
            d0 = bu.load_out(names[k])
            for q in A[k]:
                same(d0[q], A[k][q], "%s after loading a state, %s" % (names[k], q))
            f = names[k].replace(".mat", "_restarted.mat")
            later = A[k]["t"].ravel() > t_all[i0] * (1 + 1e-12)
            if later.any() and cfg["sim"].get("dec_fact_out", 1) == 1:
                d = bu.load_out(f)
                for q in ("t", "Nel_timep", "En_kin_eV_time", "lam_t_array", "Nel_imp_time", "Nel_emit_time", "En_imp_eV_time", "cen_density"):
                    same(d[q].ravel(), A[k][q].ravel()[later], "restarted output of %s, %s" % (cl.name, q), 1e-9)
        if n - i0 >= 5 and any(len(q) for q in tabs):
            labels.append("state")
    return labels or None

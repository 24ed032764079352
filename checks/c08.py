"""C08: strong-field trackers against the analytic motion in a uniform field."""
import numpy as np
from hypothesis import strategies as st

from vlib import pye, gen, dyn
from vlib.harness import Check, require

check = Check("C08", rule="at least one particle whose motion is bent by the magnetic field or accelerated by the electric field",
              assumptions=["trackers are for electrons; their charge-to-mass constant is that of CODATA 2010 (4.5e-8 from today's)",
                           "the field is the one at the particle's position at the beginning of the step",
                           "below the configured threshold the field counts as zero, an error of the gyration angle at the threshold"])

common = dict(seed=gen.seeds, n=st.one_of(st.integers(0, 2), st.integers(3, 40)), tail=st.integers(0, 8), sp=dyn.species(True),
              dt=gen.logfl(1e-13, 1e-9), E=st.one_of(st.just(0.0), gen.logfl(1.0, 1e6)), half=gen.logfl(1e-3, 0.05), v=gen.logfl(1e4, 1e8),
              steps=st.integers(1, 5))
Bany = st.one_of(st.just(0.0), gen.fl(-8, 8), gen.logfl(1e-14, 10).flatmap(lambda b: st.sampled_from([b, -b])))


def analytic(x, v, E, B, qm, dt):
    """Motion in uniform E and B, for any B including zero. All (3, N)."""
    a = qm * E
    b0 = np.sqrt((B ** 2).sum(0))
    b = np.where(b0 > 0, B / np.where(b0 > 0, b0, 1.0), np.array([[0.0], [1.0], [0.0]]))
    th = qm * b0 * dt
    cr = lambda p: np.cross(p.T, b.T).T
    vp, ap = b * (b * v).sum(0), b * (b * a).sum(0)
    vt, at = v - vp, a - ap
    small = np.abs(th) < 1e-2
    ths = np.where(small, 1.0, th)
    t2 = th * th
    s1 = np.where(small, 1 - t2 / 6 * (1 - t2 / 20 * (1 - t2 / 42)), np.sin(ths) / ths)                       # sin/th
    c2 = np.where(small, 0.5 * (1 - t2 / 12 * (1 - t2 / 30 * (1 - t2 / 56))), 2 * np.sin(ths / 2) ** 2 / ths ** 2)  # (1-cos)/th^2
    s3 = np.where(small, (1 - t2 / 20 * (1 - t2 / 42 * (1 - t2 / 72))) / 6, (ths - np.sin(ths)) / ths ** 3)
    v1 = vp + ap * dt + vt * np.cos(th) + cr(vt) * np.sin(th) + at * dt * s1 + cr(at) * dt * th * c2
    x1 = x + vp * dt + 0.5 * ap * dt ** 2 + vt * dt * s1 + cr(vt) * dt * th * c2 + at * dt ** 2 * c2 + cr(at) * dt ** 2 * th * s3
    return x1, v1, np.abs(th)


def run(spec, tr, Bfun, thr, what):
    r = gen.rng(spec["seed"])
    n, dt = spec["n"], spec["dt"]
    qm = spec["sp"][1] / spec["sp"][0]
    mp = dyn.cloud(n, spec["tail"], r, spec["half"], spec["sp"][0], spec["sp"][1], spec["v"])
    solo = dyn.cloud(n, spec["tail"], gen.rng(spec["seed"]), spec["half"], spec["sp"][0], spec["sp"][1], spec["v"])
    lab = None
    for step in range(spec["steps"]):
        E = np.zeros((3, n))
        E[:2] = spec["E"] * r.randn(2, n)
        before = dyn.snap(mp)
        B = Bfun(before[0, :n], before[1, :n])
        tr.step(mp, E[0].copy(), E[1].copy())
        after = dyn.snap(mp)
        require(np.array_equal(after[:, n:], before[:, n:]) and mp.N_mp == n, "%s: storage beyond the existing macroparticles moved" % what)
        if not n:
            continue
        bm = np.sqrt((B ** 2).sum(0))
        x1, v1, th = analytic(before[:3, :n], before[3:, :n], E, B, qm, dt)
        sv = np.sqrt((before[3:, :n] ** 2).sum(0)) + abs(qm) * np.sqrt((E ** 2).sum(0)) * dt + 1e-30
        tol = 2e-7 * (1 + th) + np.where(bm < thr * (1 + 1e-9), 1.2 * th, 0.0)
        require(np.isfinite(after[:, :n]).all(), "%s: non-finite state" % what)
        ev = np.abs(after[3:, :n] - v1).max(0)
        ex = np.abs(after[:3, :n] - x1).max(0)
        require((ev <= tol * sv).all(), lambda: "%s: velocity off by %.3g of its scale at gyration angle %.3g" % (what, (ev / sv).max(), th[np.argmax(ev / sv)]))
        sx = sv * dt
        require((ex <= tol * sx + 1e-14 * (np.abs(before[:3, :n]).max(0))).all(),
                lambda: "%s: position off by %.3g of the path at gyration angle %.3g" % (what, (ex / sx).max(), th[np.argmax(ex / sx)]))
        # energy: gain = work of E over the actual path
        dx = after[:3, :n] - before[:3, :n]
        work = qm * (E * dx).sum(0)
        dk = 0.5 * ((after[3:, :n] ** 2).sum(0) - (before[3:, :n] ** 2).sum(0))
        require((np.abs(dk - work) <= 4 * tol * sv ** 2 + 1e-14 * np.abs(qm) * np.abs(E).max(0) * np.abs(before[:3, :n]).max(0)).all(),
                "%s: kinetic energy does not change by the work of the electric field" % what)
        if (th > 1e-12).any() or spec["E"]:
            lab = ["step", "theta>3" if th.max() > 3 else "theta<1e-6" if th.max() < 1e-6 else "theta"]
        if step == 0 and n > 1:     # a particle alone moves as in the batch
            k = r.randint(n)
            one = dyn.cloud(1, 0, gen.rng(0), 1.0, spec["sp"][0], spec["sp"][1])
            for c in dyn.ALL:
                getattr(one, c)[0] = getattr(solo, c)[k]
            tr.step(one, E[0, k:k + 1].copy(), E[1, k:k + 1].copy())
            require(gen.close(dyn.snap(one)[:, 0], after[:, k], 1e-12, 1e-12 * sx[k]) , "%s: motion of a particle depends on the batch" % what)
    return lab


@check.sub("dipole", st.fixed_dictionaries(dict(common, B=Bany)), quick=6000, thorough=60000, shards=2)
def dipole(spec):
    tr = pye.dynamics_dipole.pusher_dipole_magnet(spec["dt"], spec["B"])
    return run(spec, tr, lambda x, y: np.array([0 * x, 0 * x + spec["B"], 0 * x]), 0.0, "dipole tracker")


gen_case = st.fixed_dictionaries(dict(common, kind=st.sampled_from(["none", "quad", "map", "map"]), Bx=Bany, By=Bany, fact=Bany,
                                      thr=gen.logfl(1e-13, 1e-3), map=dyn.map_strategy, zero_rows=st.booleans(),
                                      name=st.sampled_from(["analytic_quadrupole_unit_grad", "analytic_qaudrupole_unit_grad"])))


@check.sub("generic", gen_case, quick=7200, thorough=60000, shards=2)
def generic(spec):
    with pye.TempDir():
        name = None
        if spec["kind"] == "quad":
            name = "".join(list(spec["name"]))
        elif spec["kind"] == "map":
            mf = dyn.MapField(dict(spec["map"], half=4 * spec["half"], bz=False))
            if spec["zero_rows"]:
                for c in mf.c:
                    c[: mf.nx // 2] = 0.0
            mf.save("bmap.mat")
            name = "bmap.mat"
        tr = pye.dynamics_strong_B_generalized.pusher_strong_B_generalized(spec["dt"], spec["Bx"], spec["By"], name, spec["fact"], spec["thr"])
    B0 = np.array([[spec["Bx"]], [spec["By"]], [0.0]])

    def Bfun(x, y):
        if spec["kind"] == "quad":
            return np.array([spec["fact"] * y, spec["fact"] * x, 0 * x]) + B0
        if spec["kind"] == "map":
            return spec["fact"] * mf(x, y)[0] + B0
        return 0 * np.array([x, y, x]) + B0
    # without any field below threshold a particle must not sit within rounding of the threshold
    lab = run(spec, tr, Bfun, spec["thr"], "generic strong-field tracker (%s)" % spec["kind"])
    return lab if lab is None else lab + [spec["kind"]]

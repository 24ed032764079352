"""C07: Boris trackers against an independently written Boris integration."""
import numpy as np
from hypothesis import strategies as st

from vlib import pye, gen, dyn
from vlib.harness import Check, require

check = Check("C07", rule="at least one moving particle in a non-zero field or a storage tail that must stay untouched",
              assumptions=["inside a field map the field is the bilinear interpolation of the map; outside the map only the uniform part acts"])

common = dict(seed=gen.seeds, n=st.one_of(st.integers(0, 2), st.integers(3, 40)), tail=st.integers(0, 8), sp=dyn.species(),
              nsub=st.one_of(st.just(1), st.integers(2, 12)), dt=gen.logfl(1e-13, 2e-10), E=st.one_of(st.just(0.0), gen.logfl(1.0, 1e6)),
              half=gen.logfl(1e-3, 0.05), custom=st.booleans(), v=gen.logfl(1e4, 1e8))
b0 = st.one_of(st.just(0.0), gen.fl(-8, 8), gen.logfl(1e-6, 1e-2))
f2 = st.fixed_dictionaries(dict(common, kind=st.sampled_from(["none", "quad", "map", "map"]), b0=st.tuples(b0, b0, b0).map(list),
                                fact=gen.fl(-20, 20), name=st.sampled_from(["analytic_quadrupole_unit_grad", "analytic_qaudrupole_unit_grad"]),
                                map=dyn.map_strategy))
coef = st.lists(st.tuples(st.booleans(), gen.fl(-1, 1)).map(lambda t: t[1] if t[0] else 0.0), min_size=0, max_size=7)
opt = st.one_of(st.none(), gen.fl(-5, 5))
mul = st.fixed_dictionaries(dict(common, bn=coef, bs=st.one_of(st.none(), coef), b0=st.tuples(opt, opt, opt).map(list), amp=gen.logfl(1e-3, 8.0),
                                 bself=st.sampled_from(["none", "zero1", "arr", "arr"])))


def state(spec):
    r = gen.rng(spec["seed"])
    mp = dyn.cloud(spec["n"], spec["tail"], r, spec["half"], spec["sp"][0], spec["sp"][1], spec["v"])
    n = spec["n"]
    E = np.zeros((3, n))
    E[:2] = spec["E"] * r.randn(2, n)
    return r, mp, E


def judge(spec, mp, before, E, Bfun, qm, dt, nsub, what):
    n = spec["n"]
    after = dyn.snap(mp)
    require(np.array_equal(after[:, n:], before[:, n:]), "%s: storage beyond the existing macroparticles was moved" % what)
    require(mp.N_mp == n, "%s: number of macroparticles changed" % what)
    x, v = dyn.boris(before[:3, :n], before[3:, :n], E, Bfun, qm, dt, nsub)
    sv = np.sqrt((before[3:, :n] ** 2).sum(0)) + abs(qm) * np.sqrt((E ** 2).sum(0)) * dt * nsub + 1e-30
    # how strongly the motion amplifies rounding (fields varying from one sub-step to the next)
    rr = gen.rng(spec["seed"] ^ 12345)
    amp_v, amp_x = np.zeros(n), np.zeros(n)
    for _ in range(3 if nsub > 1 else 0):
        xp, vq = dyn.boris(before[:3, :n] * (1 + 1e-13 * rr.randn(3, n)), before[3:, :n] + 1e-13 * sv * rr.randn(3, n), E, Bfun, qm, dt, nsub)
        amp_v = np.maximum(amp_v, np.abs(vq - v).max(0))
        amp_x = np.maximum(amp_x, np.abs(xp - x).max(0))
    sx = sv * dt * nsub
    dv = np.abs(after[3:, :n] - v).max(0) if n else np.zeros(0)
    dx = np.abs(after[:3, :n] - x) if n else np.zeros((3, 0))
    tol = 1e-10
    require((dv <= tol * sv + 1000 * amp_v).all(), lambda: "%s: velocity differs from the Boris step, worst %.3g of the velocity scale" % (what, (dv / sv).max()))
    require((dx <= tol * sx + 1000 * amp_x + 1e-14 * np.abs(before[:3, :n])).all(), lambda: "%s: position differs, worst %.3g of the path" % (what, (dx / sx).max()))
    if spec["E"] == 0 and n:
        s0, s1 = (before[3:, :n] ** 2).sum(0), (after[3:, :n] ** 2).sum(0)
        require((np.abs(s1 - s0) <= 1e-11 * nsub * s0 + 1e-300).all(), "%s: speed changes without electric field" % what)
    return after


@check.sub("map", f2, quick=1500, thorough=60000, shards=2)
def map_tracker(spec):
    r, mp, E = state(spec)
    n, qm = spec["n"], spec["sp"][1] / spec["sp"][0]
    B0 = np.array(spec["b0"])[:, None]
    keep = np.ones(n, bool)
    with pye.TempDir():
        name = None
        if spec["kind"] == "quad":
            name = "".join(list(spec["name"]))      # a string made at run time, as from an input file
        elif spec["kind"] == "map":
            mf = dyn.MapField(dict(spec["map"], half=spec["half"]))
            mf.save("bmap.mat")
            name = "bmap.mat"
        Dt = spec["dt"] * spec["nsub"]
        tr = pye.dynamics_Boris_f2py.pusher_Boris(Dt, spec["b0"][0], spec["b0"][1], spec["b0"][2], name, spec["fact"], N_sub_steps=spec["nsub"])

    def Bfun(x, y):
        if spec["kind"] == "quad":
            return np.array([spec["fact"] * y, spec["fact"] * x, 0 * x]) + B0
        if spec["kind"] == "map":
            b, ok = mf(x, y)
            # too close to a cell border at the edge of the map: in or out is a matter of rounding
            h = spec["half"]
            e = np.minimum(np.minimum(abs(x - mf.xx[0]), abs(x - mf.xx[-1])), np.minimum(abs(y - mf.yy[0]), abs(y - mf.yy[-1])))
            keep[e < 1e-9 * h] = False
            return spec["fact"] * b + B0
        return 0 * np.array([x, y, x]) + B0
    before = dyn.snap(mp)
    x, v = dyn.boris(before[:3, :n], before[3:, :n], E, Bfun, qm, spec["dt"], spec["nsub"])
    if not keep.all():
        return None
    if spec["custom"]:
        tr.stepcustomDt(mp, E[0].copy(), E[1].copy(), Dt_substep=spec["dt"], N_sub_steps=spec["nsub"])
    else:
        tr.step(mp, E[0].copy(), E[1].copy())
    judge(spec, mp, before, E, Bfun, qm, spec["dt"], spec["nsub"], "Boris tracker (%s)" % spec["kind"])
    return spec["kind"] if n or spec["tail"] else None


@check.sub("multipole", mul, quick=1500, thorough=60000, shards=2)
def multipole(spec):
    r, mp, E = state(spec)
    n, qm = spec["n"], spec["sp"][1] / spec["sp"][0]
    # coefficients scaled so that every order matters at the edge of the region
    sc = [spec["amp"] / spec["half"] ** k * max(1, k) for k in range(8)]
    bn = [a * sc[k] for k, a in enumerate(spec["bn"])]
    bs = None if spec["bs"] is None else [a * sc[k] for k, a in enumerate(spec["bs"])]
    Dt = spec["dt"] * spec["nsub"]
    tr = pye.dynamics_Boris_multipole.pusher_Boris_multipole(Dt=Dt, N_sub_steps=spec["nsub"], B_multip=bn, B_skew=bs, B0x=spec["b0"][0],
                                                             B0y=spec["b0"][1], B0z=spec["b0"][2])
    B0 = np.array([a or 0.0 for a in spec["b0"]])[:, None]
    extra = np.zeros((3, n))
    kw = {}
    if spec["bself"] == "zero1":
        kw = dict(Bx_n=np.asarray([0.0]), By_n=np.asarray([0.0]), Bz_n=np.asarray([0.0]))
    elif spec["bself"] == "arr":
        extra = spec["amp"] * r.randn(3, n)
        kw = dict(Bx_n=extra[0].copy(), By_n=extra[1].copy(), Bz_n=extra[2].copy())

    def Bfun(x, y):
        bx, by = dyn.multipole_field(bn, bs or [], x, y)
        return np.array([bx, by, 0 * x]) + B0 + extra
    before = dyn.snap(mp)
    x, v = dyn.boris(before[:3, :n], before[3:, :n], E, Bfun, qm, spec["dt"], spec["nsub"])
    if n and np.abs(x[:2]).max() > 6 * spec["half"]:      # high orders blow up far outside: sensitive to rounding
        return None
    if spec["custom"]:
        tr.stepcustomDt(mp, E[0].copy(), E[1].copy(), Dt_substep=spec["dt"], N_sub_steps=spec["nsub"], **kw)
    else:
        tr.step(mp, E[0].copy(), E[1].copy(), **kw)
    judge(spec, mp, before, E, Bfun, qm, spec["dt"], spec["nsub"], "Boris multipole tracker")
    lab = "orders>1" if max(len(bn), len(bs or [])) > 2 else "low order"
    return lab if n or spec["tail"] else None


@check.sub("agreement", st.fixed_dictionaries(dict(common, b0=st.tuples(b0, b0, b0).map(list), grad=gen.fl(-20, 20), steps=st.integers(1, 6))),
           quick=600, thorough=20000)
def agreement(spec):
    """Compiled (multipole) and f2py (map) trackers agree over many steps, and N sub-steps equal N steps with held E field."""
    n = spec["n"]
    A, Bm = pye.dynamics_Boris_f2py, pye.dynamics_Boris_multipole
    r, m1, E = state(spec)
    r, m2, E = state(spec)
    r, m3, E = state(spec)
    Dt = spec["dt"] * spec["nsub"]
    t1 = A.pusher_Boris(Dt, *spec["b0"], "analytic_quadrupole_unit_grad", spec["grad"], N_sub_steps=spec["nsub"])
    t2 = Bm.pusher_Boris_multipole(Dt, spec["nsub"], [spec["b0"][1], spec["grad"]], [spec["b0"][0]], B0z=spec["b0"][2])
    t3 = Bm.pusher_Boris_multipole(spec["dt"], 1, [spec["b0"][1], spec["grad"]], [spec["b0"][0], 0.0], B0z=spec["b0"][2])
    s0 = dyn.snap(m1)
    for _ in range(spec["steps"]):
        t1.step(m1, E[0].copy(), E[1].copy())
        t2.step(m2, E[0].copy(), E[1].copy())
        for _ in range(spec["nsub"]):
            t3.step(m3, E[0].copy(), E[1].copy())
    a, b, c = dyn.snap(m1), dyn.snap(m2), dyn.snap(m3)
    if not n:
        require(np.array_equal(a, s0) and np.array_equal(b, s0), "storage moved without particles")
        return None
    T = Dt * spec["steps"]
    sv = np.sqrt((s0[3:] ** 2).sum(0)).max() + abs(spec["sp"][1] / spec["sp"][0]) * np.abs(E).max() * T + 1e-30
    for o, w in ((b, "f2py and compiled trackers"), (c, "sub-steps and steps")):
        require(np.abs(a[3:] - o[3:]).max() <= 1e-8 * sv and np.abs(a[:3] - o[:3]).max() <= 1e-8 * sv * T + 1e-14, "%s disagree" % w)
    return "agree"

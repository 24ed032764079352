"""C10: space charge. Linear superposition, boundary-value oracle, energy, refresh timing, electromagnetic variant."""
import numpy as np
from hypothesis import strategies as st

from vlib import buildup as bu, gen, pye
from vlib.harness import Check, require

EPS0 = 8.8541878128e-12
QE = gen.E_CH
C = gen.C_L

check = Check("C10", rule="a case is non-trivial when at least two macroparticles contribute to a field that is compared "
              "at points inside the chamber (or, for timing, when both refreshed and frozen steps occur)",
              assumptions=["field solvers of PyPIC as installed in /opt/venv; grids of at most about 40 x 40 cells",
                           "comparison with the exact boundary-value problem is made away from sources and wall, within "
                           "the discretisation error"])

MODES = ["FiniteDifferences_ShortleyWeller", "FiniteDifferences_ShortleyWeller", "FiniteDifferences_Staircase",
         "FFT_PEC_Boundary", "FFT_OpenBoundary", "ShortleyWeller_WithTelescopicGrids"]
FFT = ("FFT_PEC_Boundary", "FFT_OpenBoundary")


class Parts:
    """The part of a macroparticle system the solver looks at (plus stale storage behind the existing ones)."""

    def __init__(self, x, y, nel, charge, vx=None, vy=None, tail=5):
        n = len(x)
        big = lambda a, f: np.concatenate([a, np.full(tail, f)])
        self.x_mp, self.y_mp, self.nel_mp = big(x, 1e-3), big(y, -1e-3), big(nel, 1e9)
        self.vx_mp = big(np.zeros(n) if vx is None else vx, 1e7)
        self.vy_mp = big(np.zeros(n) if vy is None else vy, 1e7)
        self.N_mp, self.charge = n, charge


def half(c):
    return bu.half_size(c)


def make(c, mode, ng, em=None, **kw):
    ch = gen.build_chamber(c)
    X, Y = half(c)
    if mode == "ShortleyWeller_WithTelescopicGrids":
        ng = max(ng, 16)
    Dh = 2 * min(X, Y) / ng
    if mode == "ShortleyWeller_WithTelescopicGrids":
        kw.update(f_telescope=0.5, target_grid=dict(x_min_target=-0.3 * Dh, x_max_target=0.3 * Dh, y_min_target=-0.3 * Dh,
                  y_max_target=0.3 * Dh, Dh_target=Dh / 3), N_nodes_discard=1., N_min_Dh_main=4)
    if em is None:
        return pye.space_charge_class.space_charge(ch, Dh, PyPICmode=mode, **kw), Dh
    return pye.space_charge_class_electromagnetic.space_charge_electromagnetic(ch, Dh, em, PyPICmode=mode, **kw), Dh


def draw_mode(t):
    """The FFT solvers exist for rectangular chambers only."""
    d = dict(t)
    if d["mode"] in FFT:
        d["ch"] = dict(kind="rect", a=d["ch"]["a"], b=d["ch"]["b"])
    return d


sim_ch = gen.chambers(kinds=("ellip", "rect", "convex", "star"), aper=gen.fl(0.008, 0.03))
base = dict(ch=sim_ch, mode=st.sampled_from(MODES), ng=st.integers(8, 16), seed=gen.seeds)


def clouds_of(s, frac=0.9):
    r = gen.rng(s["seed"])
    out = []
    for k in s["clouds"]:
        x, y = gen.points_inside(s["ch"], k["n"], r, frac)
        nel = 10 ** r.uniform(3, 8, k["n"])
        th, v = 2 * np.pi * r.rand(k["n"]), C * s.get("beta", 0.1) * r.rand(k["n"])
        out.append(Parts(x, y, nel, k["q"] * QE, v * np.cos(th), v * np.sin(th)))
    return out, r


cloud_spec = st.lists(st.fixed_dictionaries(dict(n=st.integers(1, 40), q=st.sampled_from([-1.0, -1.0, 1.0, 2.0]))),
                      min_size=1, max_size=4)


def solve(sc, parts):
    for i, p in enumerate(parts):
        sc.recompute_spchg_efield(p, flag_solve=(i == len(parts) - 1), flag_reset=(i == 0))


def scale(*a):
    return max([float(np.max(np.abs(x))) if np.size(x) else 0.0 for x in a] + [1e-300])


@check.sub("superposition", st.fixed_dictionaries(dict(base, clouds=cloud_spec, nsplit=st.integers(1, 5))).map(draw_mode),
           quick=160, thorough=4000, shards=2)
def superposition(s):
    sc, Dh = make(s["ch"], s["mode"], s["ng"])
    cl, r = clouds_of(s)
    xp, yp = gen.points_inside(s["ch"], 60, r, 0.95)
    probe = Parts(xp, yp, np.ones(60), QE)
    tele = s["mode"].startswith("ShortleyWeller_With")
    # something else was there before
    xo, yo = gen.points_inside(s["ch"], 10, r)
    solve(sc, [Parts(xo, yo, 1e9 * np.ones(10), QE)])
    single = []
    for p in cl:
        solve(sc, [p])
        if not tele:
            tot = float(np.sum(sc.rho)) * sc.Dh ** 2
            want = p.charge * float(np.sum(p.nel_mp[:p.N_mp]))
            require(abs(tot - want) <= 1e-9 * abs(want), lambda: "deposited charge %g instead of %g" % (tot, want))
        single.append(sc.get_sc_eletric_field(probe))
    solve(sc, cl)
    Ex, Ey = sc.get_sc_eletric_field(probe)
    Ex, Ey = np.array(Ex), np.array(Ey)
    if not tele:
        tot = float(np.sum(sc.rho)) * sc.Dh ** 2
        want = sum(p.charge * float(np.sum(p.nel_mp[:p.N_mp])) for p in cl)
        amp = sum(abs(p.charge) * float(np.sum(p.nel_mp[:p.N_mp])) for p in cl)
        require(abs(tot - want) <= 1e-9 * amp, lambda: "deposited charge of %d clouds %g instead of %g" % (len(cl), tot, want))
    sx, sy = sum(a[0] for a in single), sum(a[1] for a in single)
    m = scale(*[a for p in single for a in p])
    require(np.max(np.hypot(Ex - sx, Ey - sy)) <= 1e-8 * m,
            lambda: "field of %d clouds differs from the sum of their fields by %g (scale %g)" %
            (len(cl), np.max(np.hypot(Ex - sx, Ey - sy)), m))
    # the same charge divided into other macroparticles, other clouds and another order
    q = np.concatenate([p.charge * p.nel_mp[:p.N_mp] for p in cl])
    x = np.concatenate([p.x_mp[:p.N_mp] for p in cl]); y = np.concatenate([p.y_mp[:p.N_mp] for p in cl])
    k = s["nsplit"]
    w = r.dirichlet(np.ones(k), len(q))
    x, y, q = np.repeat(x, k), np.repeat(y, k), (q[:, None] * w).ravel()
    perm = r.permutation(len(q)); x, y, q = x[perm], y[perm], q[perm]
    cut = r.randint(0, len(q) + 1)
    other = [Parts(x[a], y[a], q[a] / sg, sg) for a, sg in ((slice(0, cut), QE), (slice(cut, None), -QE)) if len(q[a])]
    sc2, _ = make(s["ch"], s["mode"], s["ng"])
    solve(sc2, other)
    Fx, Fy = sc2.get_sc_eletric_field(probe)
    require(np.max(np.hypot(Ex - Fx, Ey - Fy)) <= 1e-8 * m,
            lambda: "field depends on the division into macroparticles and clouds: %g (scale %g)" %
            (np.max(np.hypot(Ex - Fx, Ey - Fy)), m))
    # the field of a given charge density
    if s["mode"].startswith("Finite"):
        rho = np.array(sc.rho)
        solve(sc2, [cl[0]])
        sc2.compute_spchg_efield_from_rho(rho, flag_verbose=False)
        Gx, Gy = sc2.get_sc_eletric_field(probe)
        require(np.max(np.hypot(Ex - Gx, Ey - Gy)) <= 1e-8 * m, "field from the charge density differs")
    if len(q) > 1:
        return [s["mode"], "clouds%d" % len(cl)]


# ------------------------------------------------------------------ boundary-value oracle

def exact_field(c, x, y, q, xp, yp, wall, image_only=False):
    """Field of line charges q in a conducting chamber (or free space); second value: error bound from the boundary residual."""
    def free(px, py):
        dx, dy = px[:, None] - x[None], py[:, None] - y[None]
        r2 = dx * dx + dy * dy
        k = 1 / (2 * np.pi * EPS0)
        return (-0.5 * k * np.log(r2) @ q, k * (dx / r2) @ q, k * (dy / r2) @ q)
    phi, Ex, Ey = free(xp, yp) if not image_only else 3 * (0.0 * xp,)
    if not wall:
        return Ex, Ey, 0.0, None
    n = 400
    if c["kind"] == "ellip":
        t = np.linspace(0, 2 * np.pi, n, endpoint=False)
        bx, by = c["a"] * np.cos(t), c["b"] * np.sin(t)
        nx, ny = np.cos(t) / c["a"], np.sin(t) / c["b"]
        nn = np.hypot(nx, ny); nx, ny = nx / nn, ny / nn
    else:
        Vx, Vy = gen.chamber_vertices(c)
        Wx, Wy = np.roll(Vx, -1), np.roll(Vy, -1)
        L = np.hypot(Wx - Vx, Wy - Vy)
        bx, by, nx, ny = [], [], [], []
        for i in range(len(Vx)):
            m = max(12, int(n * L[i] / L.sum()))
            u = 0.5 - 0.5 * np.cos(np.pi * (np.arange(m) + 0.5) / m)
            bx.append(Vx[i] + u * (Wx[i] - Vx[i])); by.append(Vy[i] + u * (Wy[i] - Vy[i]))
            nx.append(np.full(m, (Wy[i] - Vy[i]) / L[i])); ny.append(np.full(m, -(Wx[i] - Vx[i]) / L[i]))
        bx, by, nx, ny = map(np.concatenate, (bx, by, nx, ny))
    X = max(half(c))
    k = slice(None, None, 2)
    sx, sy = bx[k] + 0.15 * X * nx[k], by[k] + 0.15 * X * ny[k]
    fb = free(bx, by)[0]
    G = np.log(np.hypot(bx[:, None] - sx[None], by[:, None] - sy[None]) / X)
    G1 = np.column_stack([G, np.ones(len(bx))])
    co = np.linalg.lstsq(G1, -fb, rcond=1e-11)[0]
    res = np.max(np.abs(G1 @ co + fb)) / max(np.max(np.abs(fb)), 1e-300)
    dx, dy = xp[:, None] - sx[None], yp[:, None] - sy[None]
    r2 = dx * dx + dy * dy
    Ex = Ex - (dx / r2) @ co[:-1]
    Ey = Ey - (dy / r2) @ co[:-1]
    pot = phi + np.log(np.sqrt(r2) / X) @ co[:-1] + co[-1]
    return Ex, Ey, res, pot


phys_modes = ["FiniteDifferences_ShortleyWeller", "FiniteDifferences_ShortleyWeller", "FiniteDifferences_Staircase",
              "FFT_PEC_Boundary", "FFT_OpenBoundary", "ShortleyWeller_WithTelescopicGrids"]


@check.sub("boundary", st.fixed_dictionaries(dict(
    ch=gen.chambers(kinds=("ellip", "rect", "convex"), aper=gen.fl(0.012, 0.024)), mode=st.sampled_from(phys_modes),
    ng=st.integers(24, 34), seed=gen.seeds, nblob=st.integers(1, 3), q=st.sampled_from([-1.0, 1.0]))).map(draw_mode),
    quick=160, thorough=1500, shards=3)
def boundary(s):
    """Smooth charge blobs: field, potential and energy against the exact boundary-value problem."""
    c = s["ch"]
    r = gen.rng(s["seed"])
    X, Y = half(c)
    m = min(X, Y)
    kw = dict(Dh_U_eV=m / 40.0)
    sc, Dh = make(c, s["mode"], s["ng"], **kw)
    xs, ys, qs, cen = [], [], [], []
    bx, by = gen.points_inside(c, s["nblob"], r, 0.55)
    R = 0.22 * m
    for i in range(s["nblob"]):
        rr, th = R * np.sqrt(r.rand(2500)), 2 * np.pi * r.rand(2500)
        x, y = bx[i] + rr * np.cos(th), by[i] + rr * np.sin(th)
        ins, mm = gen.is_inside(c, x, y)
        k = ins & (mm > 0.02 * m)
        xs.append(x[k]); ys.append(y[k]); qs.append(np.full(int(k.sum()), 10 ** r.uniform(5, 6)))
    x, y, nel = map(np.concatenate, (xs, ys, qs))
    p = Parts(x, y, nel, s["q"] * QE)
    solve(sc, [p])
    xp, yp = gen.points_inside(c, 300, r, 0.98)
    ins, mm = gen.is_inside(c, xp, yp)
    keep = mm > 2.0 * Dh
    for i in range(s["nblob"]):
        keep &= np.hypot(xp - bx[i], yp - by[i]) > R + 2.0 * Dh
    xp, yp = xp[keep], yp[keep]
    if len(xp) < 8:
        return None
    probe = Parts(xp, yp, np.ones(len(xp)), QE)
    Ex, Ey = map(np.array, sc.get_sc_eletric_field(probe))
    wall = s["mode"] != "FFT_OpenBoundary"
    Tx, Ty, res, pot = exact_field(c, x, y, s["q"] * QE * nel, xp, yp, wall)
    if res > 5e-3:
        return None     # the reference itself is not accurate enough here
    ref = np.sqrt(np.mean(Tx ** 2 + Ty ** 2))
    err = np.sqrt(np.mean((Ex - Tx) ** 2 + (Ey - Ty) ** 2)) / ref
    # one-cell staircase walls displace the boundary by up to a cell
    tol = dict(FiniteDifferences_Staircase=0.30, FFT_PEC_Boundary=0.12, FFT_OpenBoundary=0.04).get(s["mode"], 0.06)
    require(err <= tol, lambda: "%s: field differs from the boundary-value problem by %.3f of its rms" % (s["mode"], err))
    lab = [s["mode"]]
    if wall and s["mode"] != "ShortleyWeller_WithTelescopicGrids":
        U = sc.get_potential_electric_energy()
        # 1/2 sum q phi with the grid potential at the particles is the field energy
        Uq = 0.5 * float(np.sum(s["q"] * QE * nel * sc.PyPICobj.gather_phi(x, y))) / QE if hasattr(sc.PyPICobj, "gather_phi") else None
        require(U > 0, "stored energy %g is not positive" % U)
        if Uq is not None:
            et = 0.4      # blobs next to the wall, coarse grids
            require(abs(U - Uq) <= et * Uq, lambda: "stored energy %g eV/m, half the sum of charge times potential %g" % (U, Uq))
            lab.append("energy")
        # the field itself, squared and summed over a grid of our own (also over thin strips far away from the charge)
        h = m / 53.0
        gx, gy = (np.arange(np.ceil(2.02 * q / h)) * h - 1.01 * q + 0.37 * h for q in (X, Y))
        gx, gy = (q.ravel() for q in np.meshgrid(gx, gy))
        Gx, Gy = map(np.array, sc.get_sc_eletric_field(Parts(gx, gy, np.ones(len(gx)), QE)))
        Ug = 0.5 * 8.8541878128e-12 * h ** 2 * float(np.sum(Gx ** 2 + Gy ** 2)) / QE
        require(abs(U - Ug) <= 0.05 * Ug, lambda: "stored energy %g eV/m, sum of the squared field %g eV/m" % (U, Ug))
    return lab


@check.sub("energy", st.fixed_dictionaries(dict(base, clouds=cloud_spec, f=gen.fl(0.1, 10.0))).map(draw_mode), quick=40,
           thorough=1000)
def energy(s):
    """Quadratic in the charge, non-negative, zero without charge, refused when not configured."""
    X, Y = half(s["ch"])
    sc, _ = make(s["ch"], s["mode"], s["ng"], Dh_U_eV=min(X, Y) / 9.0)
    cl, r = clouds_of(s)
    solve(sc, cl)
    U = sc.get_potential_electric_energy()
    require(np.isfinite(U) and U > 0, "stored energy %g" % U)
    for p in cl:
        p.nel_mp *= s["f"]
    solve(sc, cl)
    U2 = sc.get_potential_electric_energy()
    require(abs(U2 - s["f"] ** 2 * U) <= 1e-7 * U2, lambda: "energy scales by %g for a charge factor %g" % (U2 / U, s["f"]))
    for p in cl:
        p.nel_mp *= -1
    solve(sc, cl)
    require(abs(sc.get_potential_electric_energy() - U2) <= 1e-7 * U2, "energy depends on the sign of the charge")
    for p in cl:
        p.nel_mp *= 0
    solve(sc, cl)
    require(abs(sc.get_potential_electric_energy()) <= 1e-12 * U2, "energy without charge")
    plain, _ = make(s["ch"], s["mode"], 6)
    try:
        plain.get_potential_electric_energy()
    except ValueError:
        pass
    else:
        require(False, "an energy is reported although it was not configured")
    return s["mode"]


@check.sub("refresh", st.fixed_dictionaries(dict(dt=st.sampled_from([None, 1.0, 2.5, 4.0]), seed=gen.seeds, n=st.integers(2, 60),
                                                 jitter=st.booleans())), quick=60, thorough=2000)
def refresh(s):
    """The refresh rule over any sequence of times: at every call, or as soon as the interval has elapsed."""
    c = dict(kind="ellip", a=0.02, b=0.015)
    u = 2.5e-11
    sc, _ = make(c, "FiniteDifferences_ShortleyWeller", 6, Dt_sc=None if s["dt"] is None else s["dt"] * u)
    r = gen.rng(s["seed"])
    t = np.arange(s["n"]) * u if not s["jitter"] else np.cumsum(u * (0.1 + 2 * r.rand(s["n"])))
    last, got, want = 0.0, [], []
    for a in t:
        exp = s["dt"] is None or (a - last) >= s["dt"] * u
        if s["dt"] is not None and abs((a - last) - s["dt"] * u) < 1e-6 * u:
            exp = None      # decided by rounding
        g = bool(sc.check_for_recomputation(t_curr=float(a)))
        require(exp is None or g == exp, lambda: "at t=%g, last refresh %g, interval %s: refresh=%s" % (a, last, s["dt"], g))
        require(bool(sc.last_recomputation_check) == g, "the recorded decision differs from the reported one")
        if g:
            last = float(a)
        got.append(g)
    if s["dt"] is not None and any(got) and not all(got):
        return "interval"
    return "every" if s["dt"] is None else None


# ------------------------------------------------------------------ electromagnetic variant

@check.sub("electromagnetic", st.fixed_dictionaries(dict(
    ch=sim_ch, mode=st.sampled_from(["FiniteDifferences_ShortleyWeller", "FiniteDifferences_Staircase"]), ng=st.integers(8, 14),
    seed=gen.seeds, clouds=cloud_spec, beta=st.sampled_from([1e-12, 0.05, 0.5]), gamma=gen.logfl(1.5, 7000.0),
    nref=st.integers(1, 3), dtsc=gen.logfl(1e-12, 1e-9))), quick=60, thorough=1500, shards=2)
def electromagnetic(s):
    """Fields from scalar and vector potentials that are solved here by independent electrostatic solvers."""
    em, _ = make(s["ch"], s["mode"], s["ng"], em=s["gamma"], Dt_sc=s["dtsc"])
    es, _ = make(s["ch"], s["mode"], s["ng"])
    cl, r = clouds_of(s)
    xp, yp = gen.points_inside(s["ch"], 40, r, 0.95)
    probe = Parts(xp, yp, np.ones(40), QE)
    old = (np.zeros(40), np.zeros(40))
    for k in range(s["nref"]):
        if k:
            for p in cl:
                n = p.N_mp
                p.x_mp[:n], p.y_mp[:n] = gen.points_inside(s["ch"], n, r, 0.9)
                p.vx_mp[:n], p.vy_mp[:n] = -p.vy_mp[:n].copy(), p.vx_mp[:n].copy()
        for i, p in enumerate(cl):
            em.recompute_spchg_emfield(p, flag_solve=(i == len(cl) - 1), flag_reset=(i == 0))
        solve(es, cl)
        Ex, Ey = map(np.array, es.get_sc_eletric_field(probe))

        def vecpot(comp):
            solve(es, [Parts(p.x_mp[:p.N_mp], p.y_mp[:p.N_mp], p.nel_mp[:p.N_mp] * getattr(p, comp)[:p.N_mp] / C ** 2, p.charge)
                       for p in cl])
            a = np.array(es.PyPICobj.gather_phi(xp, yp))
            gx, gy = es.get_sc_eletric_field(probe)     # minus the gradient
            return a, -np.array(gx), -np.array(gy)
        Ax, dAxx, dAxy = vecpot("vx_mp")
        Ay, dAyx, dAyy = vecpot("vy_mp")
        tx, ty = (Ax - old[0]) / s["dtsc"], (Ay - old[1]) / s["dtsc"]
        old = (Ax, Ay)
        bx_, by_ = np.sqrt(1 - 1 / s["gamma"] ** 2), None
        want = (Ex - tx, Ey - ty, ty / (bx_ * C), -tx / (bx_ * C), dAyx - dAxy)
        got = em.get_sc_em_field(probe)
        if k == 0:
            continue    # whether the vector potential counts as new or as always there is a convention of the start
        mE, mA = scale(Ex, Ey), scale(tx, ty)
        for name, g, w, sc_ in zip(("Ex", "Ey", "Bx", "By", "Bz"), got, want,
                                   (mE + mA, mE + mA, mA / C / bx_ + 1e-300, mA / C / bx_ + 1e-300, scale(dAyx, dAxy))):
            require(np.max(np.abs(g - w)) <= 2e-6 * sc_, lambda: "%s differs by %g (scale %g)" % (name, np.max(np.abs(g - w)), sc_))
        if s["beta"] < 1e-9:
            require(np.max(np.hypot(got[0] - Ex, got[1] - Ey)) <= 1e-2 * mE, "fields of slow particles are not electrostatic")
    if s["nref"] > 1:
        return ["em", "beta%g" % s["beta"]]


# ------------------------------------------------------------------ inside a simulation

@check.sub("simulation", bu.with_(ions=st.sampled_from([0, 1, 1]), em=st.booleans(), steps=st.integers(8, 12),
                                  pattern=st.sampled_from([[1.0], [1.0, 0.5]]),
                                  dtsc=st.sampled_from([None, 1.5, 2.5, 4.5])), quick=90, thorough=2500, shards=2)
def simulation(s):
    """Step by step: the stored density is that of all clouds at the last refresh, and refreshes happen when configured."""
    s = dict(s)
    if s["em"]:
        s["track"] = "BorisMultipole"
        s["dtsc"] = s["dtsc"] or 1.5
    cfg = bu.config(s)
    with pye.TempDir():
        sim = bu.make(cfg)
        stp = bu.Stepper(sim)
        sc = sim.spacech_ele
        u = cfg["sim"]["Dt"]
        r = gen.rng(s["seed"])
        xp, yp = gen.points_inside(s["ch"], 20, r, 0.95)
        probe = Parts(xp, yp, np.ones(20), QE)
        ref = pye.space_charge_class.space_charge(sim.chamb, cfg["sim"]["Dh_sc"])
        last, n_ref, n_froz = 0.0, 0, 0
        prev = None
        while True:
            before = np.array(sc.rho)
            if not stp.step():
                break
            t = sim.beamtim.tt_curr
            dt = s["dtsc"]
            due = dt is None or (t - last) >= dt * u * (1 + 1e-9)
            if due:
                last = t
            F = [np.array(a) for a in sc.get_sc_eletric_field(probe)]
            if due and t > cfg["sim"]["t_sc_ON"]:
                # cleaning or regeneration may have followed the deposition
                if not (sim.beamtim.flag_new_bunch_pass or s["regen"] == "async" or
                        any(c.MP_e.N_mp > bu.NASYNC // 4 for c in sim.cloud_list)):
                    P = [c.MP_e for c in sim.cloud_list]
                    solve(ref, P)
                    m = scale(ref.rho)
                    require(np.max(np.abs(ref.rho - sc.rho)) <= 1e-9 * m + 1e-300,
                            lambda: "step %d: stored density is not that of the %d clouds (differs by %g of %g)" %
                            (stp.i, len(P), np.max(np.abs(ref.rho - sc.rho)), m))
                    G = [np.array(a) for a in ref.get_sc_eletric_field(probe)]
                    mg = scale(*G)
                    require(scale(G[0] - F[0], G[1] - F[1]) <= 1e-7 * mg + 1e-300, "stored field is not that of the clouds")
                    for c in sim.cloud_list:
                        solve(ref, [c.MP_e])
                        require(np.max(np.abs(ref.rho - c.rho)) <= 1e-9 * m + 1e-300,
                                lambda: "step %d: density recorded for cloud %s is not its own" % (stp.i, c.name))
                    n_ref += 1
            elif prev is not None:
                require(np.array_equal(before, sc.rho), lambda: "step %d (t=%g): charge density changed between refreshes" % (stp.i, t))
                require(all(np.array_equal(a, b) for a, b in zip(F, prev)), "field changed between refreshes")
                n_froz += 1
            prev = F
        if n_ref > 3 and (s["dtsc"] is None or n_froz > 1):
            return ["clouds%d" % len(sim.cloud_list), "em" if s["em"] else "es", "every" if s["dtsc"] is None else "interval"]

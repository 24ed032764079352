"""C14: photoemission in its three modes."""
import numpy as np
from hypothesis import strategies as st

from checks import c22
from vlib import buildup as bu, gen, impact, pye, seeding, sey, ht
from vlib.harness import Check, require

fl, logfl = gen.fl, gen.logfl
QE, C = gen.E_CH, gen.C_L

check = Check("C14", rule="a case is non-trivial when photoelectrons were created and their number, place and velocity were judged",
              assumptions=["numbers: whole number below or above the mean in every request, 7 standard deviations over all requests",
                           "places: Kolmogorov-Smirnov tests (p = 1e-10) against exact distributions or an independent ray sampler",
                           "rays start in the origin (or on the axis), chambers are seen entirely from there"])


def outward(c, x, y, tol=0.0):
    """Inward unit normals at points within tol of the wall; False where the segment is ambiguous (corners)."""
    if c["kind"] == "ellip":
        nx, ny = -x / c["a"] ** 2, -y / c["b"] ** 2
        n = np.hypot(nx, ny)
        return nx / n, ny / n, np.ones(len(x), bool), np.zeros(len(x), int)
    Vx, Vy = gen.chamber_vertices(c)
    D = []
    for i in range(len(Vx)):
        j = (i + 1) % len(Vx)
        D.append(gen.seg_dist(x, y, Vx[i], Vy[i], Vx[j], Vy[j]))
    D = np.array(D)
    k = np.argmin(D, 0)
    s = np.sort(D, 0)
    sure = (s[1] > 10 * s[0] + 1e-6 * np.max(np.abs(Vx))) & (s[1] > tol)
    ex, ey = np.roll(Vx, -1)[k] - Vx[k], np.roll(Vy, -1)[k] - Vy[k]
    L = np.hypot(ex, ey)
    return -ey / L, ex / L, sure, k


def hit(c, x0, ang, R):
    """Points where rays from (x0, 0) in directions ang meet the wall."""
    xs, ys = np.full(len(ang), x0), np.zeros(len(ang))
    xe, ye = x0 + R * np.cos(ang), R * np.sin(ang)
    t, _, _ = gen.first_crossing(c, xs, ys, xe, ye)
    return xs + t * (xe - xs), ys + t * (ye - ys)


E_DIST = ["lognormal", "gaussian", "rect", "mono", "lorentz"]
common = dict(seed=gen.seeds, k_pe=logfl(1e-7, 1e-1), lam=logfl(1e8, 1e13), Dt=logfl(1e-12, 1e-9), mean=logfl(0.01, 3000.0),
              calls=st.integers(3, 40), ed=st.sampled_from(E_DIST), es=fl(0.05, 1.0), em=logfl(0.5, 300.0),
              ang=st.sampled_from(["cosine_3D", "cosine_2D", "normal_emission"]), n0=st.integers(0, 15), lt=st.booleans(),
              cont=st.sampled_from([None, None, 0.37]), heavy=st.sampled_from([1.0, 1836.0]))


class FakeBeam:
    """What the modules read of the beam for continuous emission."""

    def __init__(self, lam):
        self.lam_t_array = lam


def drive(s, c, ch, make):
    """Creates photoelectrons; returns the new rows, the system and the energy parameters."""
    r = gen.rng(s["seed"])
    lam = s["lam"]
    bt = None
    if s["cont"]:
        # the instantaneous density must not matter, the mean does
        prof = s["lam"] * r.rand(50)
        bt, lam = FakeBeam(prof), float(np.mean(prof))
    DN = s["k_pe"] * C * lam * s["Dt"]
    m = impact.system(ch, DN / s["mean"], n_max=250000, mass=gen.M_E * s["heavy"], lifetime=s["lt"])
    if s["lt"]:
        m.t_last_impact[:] = 3.3e-9
    m.z_mp[:] = 0.01
    impact.fill(m, c, r, s["n0"], 1e-8)
    old = impact.rows(m)
    spec = dict(dist=s["ed"], s=s["es"], m=s["em"])
    sig, mx = c22.energy_params(spec)
    g = make(sig, mx, bt, bool(s["cont"]))
    cnt = seeding.Counter("photoemission", rtol=1e-7)
    n = s["n0"]
    calls = s["calls"] if s["mean"] < 60 else 3
    for i in range(calls):
        g.generate(m, s["lam"] if not s["cont"] else (0.0, s["lam"] * 7)[i % 2], s["Dt"])
        cnt.add(int(m.N_mp) - n, [s["mean"]])
        n = int(m.N_mp)
    cnt.close()
    now = impact.rows(m)
    require(np.array_equal(now[:, :s["n0"]], old), "existing macroparticles were changed")
    require(not np.any(m.nel_mp[n:]), "unused storage carries charge")
    new = now[:, s["n0"]:]
    require(np.all(np.isfinite(new)), "values that are not finite")
    require(np.all(new[6] == m.nel_mp_ref), "sizes differ from the reference size")
    if s["lt"]:
        require(np.all(new[7] == -1), "new macroparticles are not marked as never having impacted")
    return new, m, (s["ed"], sig, mx), r


def velocities(s, c, new, m, en, tol=0.0):
    """Energies, and directions with respect to the wall normal at the point of emission."""
    dist, sig, mx = en
    E = 0.5 * m.mass * np.sum(new[3:6] ** 2, 0) / QE
    if dist == "mono":
        require(np.all(np.abs(E - mx) <= 1e-9 * mx), "energies differ from the configured one")
    else:
        c22.ks(c22.energy_cdf(dist, sig, mx, E), "energies, " + dist)
    nx, ny, sure, seg = outward(c, new[0], new[1], tol)
    k = sure & (E > 0)
    if k.any():
        vn = new[3] * nx + new[4] * ny
        require(np.all(vn[k] >= -1e-9 * np.sqrt(np.sum(new[3:6] ** 2, 0))[k]), "photoelectrons move into the wall")
        c22.check_angles(s["ang"], new[3][k], new[4][k], new[5][k], nx[k], ny[k], E[k], m.mass, s["ang"])
    return seg, sure


def on_wall(c, x, y, tol, what):
    ins, mm = gen.is_inside(c, x, y)
    X, Y = bu.half_size(c)
    require(np.all(ins | (mm < 1e-12 * X)), what + " outside the chamber")
    # the margin of an ellipse is a lower bound in units of the smaller aperture
    require(np.all(mm <= tol + 1e-12), lambda: "%s at %g m from the wall" % (what, np.max(mm)))


convex = gen.chambers(kinds=("ellip", "ellip", "rect", "convex"))


@check.sub("traditional", st.fixed_dictionaries(dict(common, ch=convex, refl=st.sampled_from([0.0, 0.3, 0.7, 1.0]), al=logfl(0.005, 1.0),
           file=st.booleans(), x0=st.sampled_from(["centre", "frac", "frac", "right", "left"]), x0f=fl(-0.8, 0.8), levels=st.integers(0, 4),
           resc=st.sampled_from([0.9999, 0.999, 0.99]), R=fl(1.1, 4.0))), quick=500, thorough=5000, shards=2)
def traditional(s):
    return judge_traditional(s)


@check.sub("reflected", st.fixed_dictionaries(dict(common, ch=convex, refl=st.sampled_from([0.3, 0.7, 1.0]), al=logfl(0.005, 1.0),
           file=st.just(True), x0=st.sampled_from(["frac", "frac", "right", "left"]), x0f=fl(-0.8, 0.8).filter(lambda v: abs(v) > 0.05),
           levels=st.integers(0, 4), mean=logfl(20.0, 3000.0), resc=st.sampled_from([0.9999, 0.999]), R=fl(1.1, 4.0))),
           quick=200, thorough=5000, shards=2)
def reflected(s):
    return judge_traditional(s)


def judge_traditional(s):
    sey.no_sleep()
    c = s["ch"]
    ch = gen.build_chamber(c)
    X, Y = bu.half_size(c)
    if c["kind"] == "ellip":
        far = max(X, Y)
        ax = X
    else:
        Vx, Vy = gen.chamber_vertices(c)
        far = float(np.max(np.hypot(Vx, Vy)))
        ax = None
    R = far * s["R"]
    r0 = gen.rng(s["seed"] + 1)
    # a distribution of reflected photons
    u = np.linspace(0, 1, 40)
    psi = np.cumsum(0.05 + r0.rand(40)) ; psi = (psi - psi[0]) / (psi[-1] - psi[0]) * r0.uniform(1, 6) - r0.uniform(0, 3)
    if s["levels"]:
        # a few directions only: every point is known
        n = s["levels"]
        cut = np.concatenate([[0], np.sort(r0.uniform(0.05, 0.95, n - 1)), [1]])
        lev = r0.uniform(-np.pi, np.pi, n)
        u, psi = np.repeat(cut, 2)[1:-1], np.repeat(lev, 2)
    wall = [float(hit(c, 0.0, np.array([a]), 3 * far)[0][0]) for a in (0.0, np.pi)]
    x0 = dict(centre=0.0, frac=s["x0f"] * (wall[0] if s["x0f"] > 0 else -wall[1]), right="right", left="left")[s["x0"]]
    with pye.TempDir():
        import scipy.io as sio
        sio.savemat("cdf.mat", dict(inv_CDF=psi, u_sam=u), oned_as="row")
        def make(sig, mx, bt, cont):
            return pye.gen_photoemission_class.photoemission(
                "cdf.mat" if s["file"] else "unif_no_file", s["k_pe"], s["refl"], sig, mx, s["al"], x0, 0.0, R, ch, s["resc"],
                s["ed"], s["ang"], bt, cont)
        new, m, en, r = drive(s, c, ch, make)
    if new.shape[1] == 0:
        return None
    # points lie at the configured fraction of their ray
    span = 2 * far
    on_wall(c, new[0], new[1], (1 - s["resc"]) * span * (1 if c["kind"] != "ellip" else max(1, Y / X, X / Y)), "photoelectrons")
    # the nearest wall need not be the one that was hit: not judged where several are near
    velocities(s, c, new, m, en, (1 - s["resc"]) * span)
    th = np.arctan2(new[1], new[0])
    G = lambda t: sum(c22.ss.norm.cdf((t + 2 * np.pi * k) / s["al"]) - c22.ss.norm.cdf((-np.pi + 2 * np.pi * k) / s["al"])
                      for k in range(-4, 5))
    if not s["file"] or s["refl"] == 0:
        seeding.ks((1 - s["refl"]) * G(th) + s["refl"] * (th + np.pi) / (2 * np.pi), "angle around the chamber")
    else:
        n = 40000
        k = r.binomial(n, s["refl"])
        px0 = dict(right=wall[0] * 0.99999, left=wall[1] * 0.99999).get(s["x0"], x0)
        if s["levels"]:
            qx, qy = hit(c, px0, np.pi - lev, 4 * far)
            near = np.array([np.hypot(new[0] - a, new[1] - b) for a, b in zip(qx, qy)])
            # the fraction of the path from the source, and the source's own distance from the wall
            tol = ((1 - s["resc"]) * np.hypot(qx - px0, qy) + 3e-5 * span)[:, None]
            here = near <= tol
            N = new.shape[1]
            other = int(np.sum(~here.any(0)))
            require(gen.binom_ok(other, N, 1 - s["refl"]) or other < N * (1 - s["refl"]), lambda: "%d of %d photoelectrons are at "
                    "none of the points the reflected photons reach, share of the others %g" % (other, N, 1 - s["refl"]))
            pl = np.diff(cut) * s["refl"]
            for j in range(len(lev)):
                if np.min(np.hypot(np.delete(qx, j) - qx[j], np.delete(qy, j) - qy[j]), initial=9.9) > 2 * tol.max():
                    # direct photons may land there as well
                    kj = int(np.sum(here[j]))
                    require(kj >= N * pl[j] or gen.binom_ok(kj, N, pl[j]), lambda: "%d of %d photoelectrons at the point reached by a "
                            "share of %g of them" % (kj, N, pl[j]))
            return ["levels", "x0 " + s["x0"]]
        ps = np.interp(r.rand(k), u, psi)
        hx, hy = hit(c, px0, np.pi - ps, 4 * far)
        a = np.concatenate([np.arctan2(hy, hx), (s["al"] * r.randn(n - k) + np.pi) % (2 * np.pi) - np.pi])
        # a starting point on the wall itself blurs positions by the distance to the wall
        if s["x0"] in ("centre", "frac"):
            seeding.ks2(th, a, "angle around the chamber (reflected photons from file)")
    return ["refl%g" % s["refl"], "file" if s["file"] else "unif", "many" if new.shape[1] >= 300 else "few", str(s["cont"])]


@check.sub("from-file", st.fixed_dictionaries(dict(common, ch=convex, unif=st.booleans(), resc=st.sampled_from([0.9999, 0.99]),
           R=fl(1.1, 4.0), disk=st.booleans())), quick=300, thorough=4000, shards=2)
def from_file(s):
    sey.no_sleep()
    c = s["ch"]
    ch = gen.build_chamber(c)
    X, Y = bu.half_size(c)
    far = max(X, Y) * (1 if c["kind"] == "ellip" else 1.5)
    r0 = gen.rng(s["seed"] + 1)
    u = np.concatenate([[0], np.sort(r0.rand(30)), [1]])
    an = np.cumsum(0.02 + r0.rand(32))
    an = (an - an[0]) / (an[-1] - an[0]) * r0.uniform(0.5, 2 * np.pi) + r0.uniform(-np.pi, np.pi)
    with pye.TempDir():
        src = "unif_no_file"
        if not s["unif"]:
            src = dict(u_sam=u, angles=an)
            if s["disk"]:
                import scipy.io as sio
                sio.savemat("all.mat", src, oned_as="row")
                src = "all.mat"
        def make(sig, mx, bt, cont):
            return pye.gen_photoemission_class.photoemission_from_file(src, ch, s["resc"], s["ed"], sig, mx, s["k_pe"],
                                                                       far * s["R"], s["ang"], bt, cont)
        new, m, en, r = drive(s, c, ch, make)
    if new.shape[1] == 0:
        return None
    on_wall(c, new[0], new[1], (1 - s["resc"]) * 2 * far * (1 if c["kind"] != "ellip" else max(1, Y / X, X / Y)), "photoelectrons")
    velocities(s, c, new, m, en, (1 - s["resc"]) * 2 * far)
    th = np.arctan2(new[1], new[0])
    if s["unif"]:
        seeding.ks((th + np.pi) / (2 * np.pi), "angle around the chamber")
    else:
        # the piecewise linear distribution, unwrapped to start at its first angle
        w = (th - an[0]) % (2 * np.pi)
        w = np.where(w > an[-1] - an[0] + 1e-6, w - 2 * np.pi, w)
        seeding.ks(np.interp(w, an - an[0], u), "angle around the chamber (from file)")
    return ["unif" if s["unif"] else "file", "many" if new.shape[1] >= 300 else "few", str(s["cont"])]


seg_ch = gen.chambers(kinds=("rect", "convex", "convex", "star", "template"))


@check.sub("per-segment", st.fixed_dictionaries(dict(common, ch=seg_ch, zeros=st.booleans(), split=st.booleans())), quick=300,
           thorough=4000, shards=2)
def per_segment(s):
    sey.no_sleep()
    c = dict(s["ch"])
    Vx, Vy = gen.chamber_vertices(c)
    r0 = gen.rng(s["seed"] + 1)
    N = len(Vx)
    p = r0.dirichlet(np.ones(N))
    if s["zeros"]:
        p[r0.rand(N) < 0.4] = 0.0
        if p.sum() == 0:
            p[r0.randint(N)] = 1.0
        p /= p.sum()
    cdf = np.cumsum(p); cdf[-1] = 1.0
    cdf = np.minimum(cdf, 1.0)
    p = np.diff(np.append(0, cdf))
    cx, cy = gen.inscribed(Vx, Vy, 1.0)
    d = dict(Vx=Vx, Vy=Vy, x_sem_ellip_insc=cx, y_sem_ellip_insc=cy, phem_cdf=cdf)
    ch = pye.geom_impact_poly_fast_impact.polyg_cham_photoemission(d)
    track = pye.geom_impact_poly_fast_impact.polyg_cham_geom_object(d, False, flag_assume_convex=False)
    def make(sig, mx, bt, cont):
        return pye.gen_photoemission_class.photoemission_per_segment(ch, s["ed"], sig, mx, s["k_pe"], s["ang"], bt, cont)
    new, m, en, r = drive(s, c, track, make)
    if new.shape[1] == 0:
        return None
    on_wall(c, new[0], new[1], 1e-9, "photoelectrons")
    require(not np.any(track.is_outside(new[0], new[1])), "photoelectrons outside the chamber used for tracking")
    seg, sure = velocities(s, c, new, m, en)
    n = int(sure.sum())
    for i in range(N):
        k = int(np.sum(seg[sure] == i))
        require(p[i] > 0 or k == 0, "segment %d emits although its share is zero" % i)
        # ends of the segments are left out of the count
        require(gen.binom_ok(k, n, p[i]) or gen.binom_ok(int(np.sum(seg == i)), len(seg), p[i], 9.0),
                lambda: "segment %d: %d of %d photoelectrons, share %g" % (i, k, n, p[i]))
        if k >= 300:
            j = (i + 1) % N
            w = seg == i
            L2 = (Vx[j] - Vx[i]) ** 2 + (Vy[j] - Vy[i]) ** 2
            t = ((new[0][w] - Vx[i]) * (Vx[j] - Vx[i]) + (new[1][w] - Vy[i]) * (Vy[j] - Vy[i])) / L2
            seeding.ks(np.clip(t, 0, 1), "position along segment %d" % i)
    return ["zeros" if s["zeros"] else "all", "many" if new.shape[1] >= 300 else "few", c["kind"]]


@check.sub("refused", st.sampled_from(["y0", "x0out", "radius", "cdfend", "cdforder", "clockwise"]), quick=12, thorough=12)
def refused(k):
    e = gen.build_chamber(dict(kind="ellip", a=0.02, b=0.01))
    V = dict(Vx=np.array([1., -1., -1., 1.]), Vy=np.array([1., 1., -1., -1.]), x_sem_ellip_insc=.9, y_sem_ellip_insc=.9,
             phem_cdf=np.array([.2, .5, .7, 1.]))
    args = dict(x0=0.0, y0=0.0, R=0.05)
    if k in ("y0", "x0out", "radius"):
        args.update(dict(y0=dict(y0=1e-3), x0out=dict(x0=0.03), radius=dict(R=0.015))[k])
    else:
        V.update(dict(cdfend=dict(phem_cdf=np.array([.2, .5, .7, .9])), cdforder=dict(phem_cdf=np.array([.5, .2, .7, 1.])),
                      clockwise=dict(Vx=V["Vx"][::-1], Vy=V["Vy"][::-1]))[k])
    try:
        if k in ("y0", "x0out", "radius"):
            pye.gen_photoemission_class.photoemission("unif_no_file", 1e-4, 0.2, 5., 7., 0.05, args["x0"], args["y0"], args["R"],
                                                      e, 0.999, "gaussian", "cosine_3D")
        else:
            pye.geom_impact_poly_fast_impact.polyg_cham_photoemission(V)
    except ValueError:
        return "refused"
    require(False, "accepted: " + k)


GRID = 2.0 ** -10


def comb(s):
    """A rectilinear or dyadic-slope outline with collinear edges, in whole multiples of GRID, anticlockwise."""
    r = gen.rng(s["seed"])
    n = s["teeth"]
    hi, lo = 8, -8
    pts = [(-12, lo), (12, lo)] if not s["slant"] else [(-12, lo + 4), (-8, lo), (8, lo), (12, lo + 4)]
    # the upper side from right to left: teeth of equal or different heights
    xs = sorted(r.choice(np.arange(-11, 12), 2 * n, replace=False).tolist(), reverse=True)
    pts += [(12, hi)]
    for a, b in zip(xs[::2], xs[1::2]):
        d = 4 if r.rand() < 0.6 else int(r.randint(2, 7))
        pts += [(a, hi), (a, hi - d), (b, hi - d), (b, hi)]
    pts += [(-12, hi)]
    pts = [(float(x), float(y)) for x, y in pts]
    if s["turn"]:
        pts = [(-y, x) for x, y in pts]
    return pts


def on_edges(p, V):
    """Exactly: is the point on one of the edges?"""
    for (x0, y0), (x1, y1) in zip(V, V[1:] + V[:1]):
        if (x1 - x0) * (p[1] - y0) == (y1 - y0) * (p[0] - x0) and min(x0, x1) <= p[0] <= max(x0, x1) and min(y0, y1) <= p[1] <= max(y0, y1):
            return True
    return False


@check.sub("same-wall", st.fixed_dictionaries(dict(seed=gen.seeds, teeth=st.integers(1, 4), slant=st.booleans(), turn=st.booleans(),
                                                   cuts=st.integers(0, 6), how=st.sampled_from(["same", "same", "extra", "dropped"]),
                                                   shift=st.integers(0, 30))), quick=400, thorough=6000)
def same_wall(s):
    """The outline given for photoemission is accepted exactly when both outlines have the same wall, however it is divided."""
    V = comb(s)
    r = gen.rng(s["seed"] + 1)
    F = list(V)
    corner = None
    if s["how"] == "dropped":
        i = int(r.randint(len(F)))
        corner = F[i]
        F = F[:i] + F[i + 1:]
    if s["how"] == "extra":
        # a point off the wall, often on the line through another edge
        for _ in range(50):
            i = int(r.randint(len(F)))
            P = (float(F[r.randint(len(F))][0]), float(F[r.randint(len(F))][1])) if r.rand() < 0.7 else (r.randint(-20, 21) / 2.0, r.randint(-20, 21) / 2.0)
            if not on_edges(P, V):
                break
        else:
            return None
        F = F[:i + 1] + [P] + F[i + 1:]
    else:
        for _ in range(s["cuts"]):
            i = int(r.randint(len(F)))
            a, b = F[i], F[(i + 1) % len(F)]
            t = float(r.choice([0.25, 0.5, 0.75]))
            F = F[:i + 1] + [(a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1]))] + F[i + 1:]
    k = s["shift"] % len(F)
    F = F[k:] + F[:k]
    want = all(on_edges(q, V) for q in F) and all(on_edges(q, F) for q in V)
    if s["how"] == "same":
        require(want, "oracle")
    def arr(L):
        A = np.array(L) * GRID
        return A[:, 0], A[:, 1]
    x, y = arr(V)
    base = dict(Vx=x, Vy=y, x_sem_ellip_insc=GRID, y_sem_ellip_insc=GRID)
    chamb = pye.geom_impact_poly_fast_impact.polyg_cham_geom_object(base, False, flag_assume_convex=False)
    x, y = arr(F)
    try:
        ph = pye.geom_impact_poly_fast_impact.polyg_cham_photoemission(dict(base, Vx=x, Vy=y, phem_cdf=np.linspace(0, 1, len(F) + 1)[1:]))
    except ValueError:
        require(not want, "an outline with the same wall is refused")
        return None
    got = bool(ph.vertexes_are_subset(chamb))
    require(got == want, "outline for photoemission %s: reported as %s" % (s["how"], got))
    require(bool(chamb.vertexes_are_subset(ph)) == want, "the comparison is not symmetric")
    return [s["how"], "same wall" if want else "another wall"]


@check.sub("other-wall", st.fixed_dictionaries(dict(ch=gen.chambers(kinds=("rect", "convex"), aper=bu.aper), seed=gen.seeds,
                                                    eps=st.sampled_from([1e-4, -1e-3, 0.05]), second=st.booleans())), quick=16, thorough=200)
def other_wall(s):
    """A run whose photoemission outline is not the wall is refused; the same run with the wall itself starts."""
    sey.no_sleep()
    c = s["ch"]
    Vx, Vy = gen.chamber_vertices(c)
    cx, cy = gen.inscribed(Vx, Vy, 1.0)
    k = gen.rng(s["seed"]).randint(len(Vx))
    flags = dict(photoem_flag="per_segment", k_pe_st=1e-4, e_pe_sigma=0.0, e_pe_max=1.0, energy_distribution="mono",
                 photoelectron_angle_distribution="cosine_3D", filename_chm_photoem="seg.mat")
    beam = dict(ppb=1e11, off=0.5, sz=1.0, sx=0.1, sy=0.1, px=0.0, py=0.0, coast=0.0, pattern=[1.0])
    t = dict(ch=c, seed=s["seed"], Dt=2.5e-11, steps=8, extra=0, beams=[beam], profile=0)
    clouds = {}
    if s["second"]:
        clouds["other.cloud"] = dict(flags, cloud_mass=gen.M_E, cloud_charge=-QE, nel_mp_ref_0=1e4, switch_model="perfect_absorber",
                                     init_unif_flag=0, init_unif_edens_flag=0, gas_ion_flag=0, N_sub_steps=1,
                                     logfile_path="./l2.txt", progress_path="./p2.txt")
    for same in (True, False):
        with pye.TempDir():
            cfg = seeding.still_config(t, {} if s["second"] else flags, clouds, nel_mp_ref_0=1e4, **(dict(cloud_name="electrons") if clouds else {}))
            cfg["mats"]["chamber.mat"] = dict(Vx=Vx, Vy=Vy, x_sem_ellip_insc=cx, y_sem_ellip_insc=cy)
            cfg["machine"].update(chamb_type="polyg", filename_chm="chamber.mat")
            W = np.array([Vx, Vy], float)
            if not same:
                W[:, k] *= 1 + s["eps"]
            cfg["mats"]["seg.mat"] = dict(Vx=W[0], Vy=W[1], x_sem_ellip_insc=cx, y_sem_ellip_insc=cy, phem_cdf=np.linspace(0, 1, len(Vx) + 1)[1:])
            try:
                bu.make(cfg)
            except ValueError:
                require(not same, "a photoemission outline equal to the wall is refused")
                continue
            require(same, "a photoemission outline with a displaced corner is accepted")
    return "second cloud" if s["second"] else "main cloud"


beam = st.fixed_dictionaries(dict(ppb=logfl(1e10, 3e11), off=fl(0.2, 0.8), sz=fl(1.0, 3.0), sx=st.just(0.1), sy=st.just(0.1),
                                  px=st.just(0.0), py=st.just(0.0), coast=st.sampled_from([0.0, 0.0, 1e9]),
                                  pattern=st.lists(st.sampled_from([1.0, 1.0, 0.0]), min_size=1, max_size=3)))
one = st.fixed_dictionaries(dict(flag=st.sampled_from([1, 2, "from_file", 3, "per_segment"]), rate=logfl(0.05, 20.0),
                                 cont=st.booleans()))


@check.sub("simulation", st.fixed_dictionaries(dict(
    ch=gen.chambers(kinds=("rect", "convex"), aper=bu.aper), seed=gen.seeds, Dt=st.sampled_from([1e-11, 2.5e-11]),
    steps=st.integers(8, 24), extra=st.integers(0, 6), beams=st.lists(beam, min_size=1, max_size=3), main=one,
    second=st.one_of(st.none(), one), profile=st.sampled_from([0, 0, 1, 2]))), quick=60, thorough=2000, shards=2)
def simulation(s):
    """Every step of a run: the beam particles of all beams, or their mean, times each cloud's own yield."""
    sey.no_sleep()
    c = s["ch"]
    X, Y = bu.half_size(c)
    if any(o and o["cont"] for o in (s["main"], s["second"])):
        s = dict(s, beams=s["beams"][:1], profile=0)
    Vx, Vy = gen.chamber_vertices(c)
    far = float(np.max(np.hypot(Vx, Vy)))
    lam0 = s["beams"][0]["ppb"] / (s["steps"] * s["Dt"] * C)
    def pars(o, ref):
        return dict(photoem_flag=o["flag"], inv_CDF_refl_photoem_file="unif_no_file", inv_CDF_all_photoem_file="unif_no_file",
                    k_pe_st=o["rate"] * ref / (lam0 * s["Dt"] * C), refl_frac=0.5, alimit=0.3, e_pe_sigma=0.0, e_pe_max=1e-13,
                    x0_refl=0.0, y0_refl=0.0, out_radius=2 * far, phem_resc_fac=0.999, energy_distribution="mono",
                    photoelectron_angle_distribution="cosine_3D", flag_continuous_emission=o["cont"],
                    filename_chm_photoem="seg.mat")
    info = [(pars(s["main"], 1e4), s["main"], 1e4)]
    clouds = {}
    if s["second"]:
        d2 = pars(s["second"], 2.7e3)
        clouds["other.cloud"] = dict(d2, cloud_mass=gen.M_E, cloud_charge=-QE, nel_mp_ref_0=2.7e3, switch_model="perfect_absorber",
                                     init_unif_flag=0, init_unif_edens_flag=0, gas_ion_flag=0, N_sub_steps=1,
                                     logfile_path="./l2.txt", progress_path="./p2.txt")
        info.append((d2, s["second"], 2.7e3))
    mach = {k: v for k, v in info[0][0].items()}
    with pye.TempDir():
        cfg = seeding.still_config(s, mach, clouds, nel_mp_ref_0=1e4, **(dict(cloud_name="electrons") if clouds else {}))
        q = gen.rng(s["seed"]).dirichlet(np.ones(len(Vx)))
        cdf = np.cumsum(q); cdf[-1] = 1.0
        cx, cy = gen.inscribed(Vx, Vy, 1.0)
        cfg["mats"]["seg.mat"] = dict(Vx=Vx, Vy=Vy, x_sem_ellip_insc=cx, y_sem_ellip_insc=cy, phem_cdf=np.minimum(cdf, 1.0))
        if c["kind"] == "rect":
            # the photoemission profile belongs to a polygon
            cfg["mats"]["chamber.mat"] = dict(Vx=Vx, Vy=Vy, x_sem_ellip_insc=cx, y_sem_ellip_insc=cy)
            cfg["machine"].update(chamb_type="polyg", filename_chm="chamber.mat")
        sim = bu.make(cfg)
        beams = [sim.beamtim] + list(sim.sec_beams_list)
        lam = [np.array(b.lam_t_array, float) for b in beams]
        t = np.array(sim.beamtim.t, float)
        cnt = [seeding.Counter("cloud %d" % k, rtol=1e-7) for k in range(len(info))]
        made = [0] * len(info)
        def each(cl, i, n, tab, dt):
            k = sim.cloud_list.index(cl)
            p, o, ref = info[k]
            w = tab[:, n:]
            l = float(np.mean(lam[0])) if o["cont"] else sum(a[i] for a in lam)
            cnt[k].add(w.shape[1], [p["k_pe_st"] * C * l * dt / ref])
            require(np.all(w[6] == ref), "size of the new macroparticles")
            ins, mm = gen.is_inside(c, w[0], w[1])
            require(np.all(ins | (mm < 1e-9 * X)) and np.all(mm < 0.003 * far), "photoelectrons away from the wall")
            made[k] += w.shape[1]
        seeding.run(sim, cfg, each)
        for k in cnt:
            k.close()
    if sum(made):
        return ["beams%d" % len(beams), "clouds%d" % len(info)] + ["mode %s" % o["flag"] for _, o, _ in info]


@check.sub("passage", st.fixed_dictionaries(dict(
    cl=ht.cloud_spec, b=ht.bunch_spec, n=st.integers(1, 6), rate=logfl(0.3, 400.0), k_pe=logfl(1e-5, 1e-1),
    apart=st.lists(st.booleans(), min_size=6, max_size=6), sub=st.booleans(), ch=gen.chambers(kinds=("ellip",), aper=bu.aper))),
    quick=80, thorough=2000, shards=2)
def passage(s):
    """Slices of a bunch traversing the cloud as an element of a ring: photoelectrons in proportion to the charge of the slice."""
    sey.no_sleep()
    c = dict(s["cl"], nmp=50, ch=s["ch"])
    X, Y = bu.half_size(c["ch"])
    from PyHEADTAIL.particles.slicing import UniformBinSlicer
    sl = UniformBinSlicer(s["n"])
    p = ht.bunch(s["b"], c["ch"])
    dz = float(np.mean(np.diff(p.get_slices(sl).z_bins)))
    p.clean_slices()
    dt = dz / (p.beta * C)
    ref = s["k_pe"] * C * s["b"]["ppb"] / s["n"] / dz * dt / s["rate"]
    cfg = ht.config(dict(c, Dt=None), dt)
    cfg["machine"].update(init_unif_flag=0, photoem_flag=1, inv_CDF_refl_photoem_file="unif_no_file", k_pe_st=s["k_pe"], refl_frac=0.4, alimit=0.3,
                          e_pe_sigma=0.0, e_pe_max=1e-3, x0_refl=0.0, y0_refl=0.0, out_radius=4 * max(X, Y), phem_resc_fac=0.9999,
                          energy_distribution="mono", photoelectron_angle_distribution="cosine_3D")
    cfg["sim"].update(nel_mp_ref_0=ref, Dt=dt * 0.4 if s["sub"] else None)
    labels = set()
    with pye.TempDir():
        ec = ht.ecloud(c, cfg, dt, sl, True)
        m = ec.cloudsim.cloud_list[0].MP_e
        require(m.N_mp == 0, "macroparticles before anything happened")
        cnt = seeding.Counter("photoemission by slices", rtol=1e-7)
        pieces = [w for w in p.extract_slices(sl) if not isinstance(w.slice_info, str)]
        for w, apart in zip(pieces[::-1], s["apart"]):
            apart = apart or s["sub"]
            w.slice_info["interact_with_EC"] = not apart
            m.nel_mp[:m.N_mp] = 0
            m.N_mp = 0
            ec.track(w)
            n, k = int(m.N_mp), w.macroparticlenumber
            if apart or k == 0:
                require(n == 0, "%d photoelectrons from %s" % (n, "a slice that does not interact" if apart else "an empty slice"))
                continue
            cnt.add(n, [s["k_pe"] * C * k * w.particlenumber_per_mp / dz * dt / ref])
            require(np.all(m.nel_mp[:n] == ref), "size of the new macroparticles")
            ins, mm = gen.is_inside(c["ch"], m.x_mp[:n], m.y_mp[:n])
            require(np.all(ins & (mm < 2e-3 * max(X, Y))), "photoelectrons away from the wall")
            labels |= {"passage"} if n else set()
        cnt.close()
    return sorted(labels) or None

"""C22: energies and angles of emitted electrons follow the configured distributions."""
import numpy as np
import scipy.stats as ss
from scipy.special import gammainc, erf
from hypothesis import strategies as st

from vlib import pye, gen, sey
from vlib.harness import Check, require, Violation

check = Check("C22", rule="a sample of at least 1000 electrons was compared with its distribution, or the exact relations held for "
              "at least one electron",
              assumptions=["distributions are compared with a Kolmogorov-Smirnov test at p = 1e-10",
                           "rectangular distribution: lower edge not negative"])
P = 1e-10


def ks(u, what):
    """u must be uniform on [0, 1]."""
    u = np.asarray(u, float)
    require(np.all(np.isfinite(u)) and np.all(u >= -1e-9) and np.all(u <= 1 + 1e-9), what + ": outside the support")
    if len(u) < 200:
        return
    d, p = ss.kstest(np.clip(u, 0, 1), "uniform")
    require(p > P, lambda: "%s: %d values, Kolmogorov-Smirnov distance %.4f (p = %.1e)" % (what, len(u), d, p))


sizes = st.sampled_from([0, 1, 2, 4000, 4000, 4000])
energy = st.fixed_dictionaries(dict(dist=st.sampled_from(["lognormal", "gaussian", "rect", "mono", "lorentz"]), s=gen.fl(0.05, 1.0),
                                    m=gen.logfl(0.5, 300), n=sizes))


def energy_cdf(dist, sig, mx, E):
    if dist == "lognormal":
        return ss.norm.cdf((np.log(np.maximum(E, 1e-300)) - mx) / sig)
    if dist == "gaussian":
        f0 = ss.norm.cdf(-mx / sig)
        return (ss.norm.cdf((E - mx) / sig) - f0) / (1 - f0)
    if dist == "rect":
        return (E - mx) / sig + 0.5
    if dist == "lorentz":
        F = lambda x: np.arctan((x - mx) / sig) / np.pi + 0.5
        return (F(E) - F(0)) / (1 - F(0))


def energy_params(spec):
    d = spec["dist"]
    if d == "lognormal":
        return 0.1 + 1.5 * spec["s"], np.log(spec["m"])
    if d == "rect":
        return 2 * spec["m"] * spec["s"], spec["m"]
    return 3 * spec["m"] * spec["s"], spec["m"]


@check.sub("energies", energy, quick=300, thorough=10000)
def energies_case(spec):
    sig, mx = energy_params(spec)
    f = pye.electron_emission.get_energy_distribution_func(spec["dist"], sig, mx)
    n = spec["n"]
    E = np.asarray(f(n), float)
    require(E.shape == (n,), "%d energies generated, %d requested" % (E.size, n))
    require(np.all(np.isfinite(E)) and np.all(E >= -1e-9 * mx), "negative or infinite energy")
    if spec["dist"] == "mono":
        require(np.all(E == mx), "mono: energy differs from the configured one")
    else:
        ks(energy_cdf(spec["dist"], sig, mx, E), spec["dist"])
        if n > 100:
            require(abs(np.corrcoef(E[1:] > np.median(E), E[:-1] > np.median(E))[0, 1]) < 8 / np.sqrt(n), "successive energies are correlated")
    return spec["dist"] if n >= 1000 else None


bad = st.sampled_from(["", "Lognormal", "gauss", "cosine_3D", "lorentzian", "rectangular", None, "lognorm"])


@check.sub("unknown-name", st.fixed_dictionaries(dict(a=bad, kind=st.sampled_from(["energy", "angle"]))), quick=16, thorough=16, thorough_shards=1)
def unknown_case(spec):
    ee = pye.electron_emission
    a = spec["a"]
    if spec["kind"] == "angle" and a == "cosine_3D":
        return None
    try:
        if spec["kind"] == "energy":
            ee.get_energy_distribution_func(a, 1.0, 1.0)
        else:
            ee.get_angle_dist_func(a)
    except ValueError:
        return "refused"
    raise Violation("%s distribution %r accepted" % (spec["kind"], a))


angle = st.fixed_dictionaries(dict(name=st.sampled_from(["cosine_3D", "cosine_2D", "normal_emission"]), n=sizes, one=st.booleans(),
                                   seed=gen.seeds, heavy=gen.logfl(1, 1e5), E=gen.logfl(1e-3, 1e5)))


def check_angles(name, vx, vy, vz, Nx, Ny, E, mass, what):
    n = len(E)
    v = np.sqrt(vx ** 2 + vy ** 2 + vz ** 2)
    require(gen.close(0.5 * mass * v ** 2 / gen.E_CH, E, 1e-9), what + ": kinetic energy differs from the requested one")
    k = v > 0
    vx, vy, vz, v, Nx, Ny = (np.broadcast_to(q, (n,))[k] for q in (vx, vy, vz, v, Nx, Ny))
    c = (vx * Nx + vy * Ny) / v
    require(np.all(c >= -1e-12), what + ": velocity points into the wall")
    if name == "normal_emission":
        require(np.all(np.abs(c - 1) < 1e-9), what + ": not along the normal")
        return
    t = (vx * Ny - vy * Nx) / v
    z = vz / v
    ks(c ** 2 if name == "cosine_3D" else np.sqrt(np.maximum(1 - c ** 2, 0)), what + ", polar angle")
    phi = np.arctan2(t, z)
    ks(phi / (2 * np.pi) + 0.5, what + ", azimuth")
    if len(c) > 500:
        q = (c > np.median(c)) * 1.0
        for g in (np.cos(phi), np.sin(phi)):
            require(abs(np.mean((q - q.mean()) * g)) < 7 * 0.5 * np.sqrt(0.5) / np.sqrt(len(c)), what + ": azimuth and polar angle are correlated")


@check.sub("angles", angle, quick=300, thorough=10000)
def angles_case(spec):
    sey.no_sleep()
    r = gen.rng(spec["seed"])
    n = spec["n"]
    a = (r.rand() if spec["one"] else r.rand(n)) * 2 * np.pi
    if r.rand() < .3:
        a = np.round(a / (np.pi / 2)) * np.pi / 2
    Nx, Ny = np.cos(a) * np.ones(n), np.sin(a) * np.ones(n)
    E = spec["E"] * (0.1 + r.rand(n))
    mass = gen.M_E * spec["heavy"]
    f = pye.electron_emission.get_angle_dist_func(spec["name"])
    keep = E.copy(), Nx.copy(), Ny.copy()
    vx, vy, vz = f(n, E, Nx, Ny, mass)
    require(all(np.array_equal(p, q) for p, q in zip(keep, (E, Nx, Ny))), "an argument was modified")
    require(np.shape(vx) == np.shape(vy) == np.shape(vz) == (n,), "number of velocities")
    check_angles(spec["name"], vx, vy, vz, Nx, Ny, E, mass, spec["name"])
    return spec["name"] if n >= 1 else None


def hilleret_u(E, Ei, m):
    """Probability transform of secondary energies."""
    F = lambda x: ss.norm.cdf((np.log(np.maximum(x, 1e-300)) - m["mufit"]) / m["sigmafit"])
    cut = np.full(len(E), m["E_th"])
    if m["switch"] == 2:
        cut = np.minimum(cut, Ei)
    u = F(E) / F(cut)
    if m["switch"] == 2:
        low = Ei < m["thresh"]
        u = np.where(low, (E / Ei) ** 2, u)
    return u


hill = st.fixed_dictionaries(dict(n=sizes, seed=gen.seeds, lo=st.sampled_from([-1.0, 0.5, 1.0]), **sey.common))


@check.sub("secondary-energies", hill, quick=200, thorough=8000)
def hill_case(m):
    r = gen.rng(m["seed"])
    n = m["n"]
    Ei = 10 ** (m["lo"] + 2.5 * r.rand(n))
    keep = Ei.copy()
    E = np.asarray(pye.electron_emission.sec_energy_hilleret_model2(m["switch"], n, m["sigmafit"], m["mufit"], m["E_th"], Ei, m["thresh"]))
    require(E.shape == (n,) and np.array_equal(Ei, keep), "number of energies, or impact energies modified")
    require(np.all(E >= 0), "negative energy")
    u = hilleret_u(E, Ei, m)
    ks(u, "secondary energies, switch %d" % m["switch"])
    low = Ei < m["thresh"]
    ks(u[low], "secondary energies below the threshold")
    ks(u[~low], "secondary energies above the threshold")
    return "switch %d" % m["switch"] if n >= 1000 else None


def _own(m):
    f = dict(m["fp"], use_ECLOUD_energy=False, exclude_rediffused=False, conserve_energy=False, theta_r_max=None,
             p1RInf=0.05 + 0.8 * m["fp"]["p1RInf"], sigmaE=2 + m["fp"]["sigmaE"])
    return dict(m, fp=f)


models = st.one_of(sey.furman.map(_own), sey.ecloud, sey.acc_low, sey.cos_le, sey.flat_le, sey.from_file, sey.furman, sey.furman, sey.nunif_strategy())
emit = models.flatmap(lambda m: st.fixed_dictionaries(dict(m=st.just(m), seed=gen.seeds, lo=gen.fl(0.5, 2.5), w=gen.fl(0, 1.0),
                                                            split=st.sampled_from([0.3, 1e9]), c=gen.fl(0, 1))))


def fp_u(m, ev, k, E, Ei):
    f = sey.fp_dict(m["fp"])
    if ev == 0:
        s = f["sigmaE"]
        if f["use_modified_sigmaE"]:
            s = f["sigmaE"] - 1.88 + 2.5 * (1 + np.tanh(1e-2 * (Ei - 150.0)))
        return 1 - erf((Ei - E) / (np.sqrt(2) * s)) / erf(Ei / (np.sqrt(2) * s))
    if ev == 2:
        return (E / Ei) ** (f["q"] + 1)
    p, e = f["p_n"][k - 1], f["eps_n"][k - 1]
    return gammainc(p, E / e) / gammainc(p, Ei / e)


@check.sub("through-the-models", emit, quick=300, thorough=12000, shards=3, thorough_shards=8)
def emit_case(spec):
    """Secondaries emitted by each model: energy and direction laws wired to the configured ones, per kind of event."""
    sey.no_sleep()
    m = spec["m"]
    r = gen.rng(spec["seed"])
    n = 6000
    segs, flag = None, False
    if m["model"] == "nunif":
        ch, t = sey.nunif_chamber(m)
        mod = sey.nunif_build(m, ch)
        segs, flag = r.randint(0, ch.N_edg, n), True
    else:
        mod = sey.build(m)
    E = 10 ** (spec["lo"] + spec["w"] * r.rand(n))
    c = np.full(n, spec["c"])
    fp = m["model"] == "furman_pivi"
    if fp:
        de, dr, _ = sey.fp_parts(m, E, c)
        if np.any(de + dr >= 0.99):
            return None
        f = sey.fp_dict(m["fp"])
        if f["use_modified_sigmaE"] and f["sigmaE"] < 2:
            return None                       # the modified width would be negative at low energy
    mass = gen.M_E
    b = sey.impact_batch(r, n, E, c, segs=segs)
    o = sey.impacts(mod, b, nel_th=spec["split"], flag_seg=flag)
    key = {x: i for i, x in enumerate(b["x_impact"])}
    par = np.array([key[x] for x in np.atleast_1d(o["x_new_MPs"])], int)
    ev = np.asarray(o["event_type"]).astype(int)
    nel = np.asarray(o["nel_replace"])
    cnt = np.bincount(par, minlength=n)[:n] + (nel > 0)
    V = {}
    for q in ("vx", "vy", "vz"):
        V[q] = np.concatenate([np.asarray(o[q + "_replace"]), np.atleast_1d(o[q + "_new_MPs"])])
    idx = np.concatenate([np.arange(n), par])
    first = np.concatenate([np.ones(n, bool), np.zeros(len(par), bool)])
    ok = np.concatenate([nel > 0, np.ones(len(par), bool)])
    En = 0.5 * mass / gen.E_CH * (V["vx"] ** 2 + V["vy"] ** 2 + V["vz"] ** 2)
    own = fp and not m["fp"]["use_ECLOUD_energy"]
    out = []
    for kind in ((0, 1, 2) if own else (1, 2) if fp else (1,)):
        for part in (first, ~first):
            s = ok & part & (ev[idx] == kind)
            i = idx[s]
            if len(i) < 200:
                continue
            what = "%s, event %d, %s macroparticles" % (m["model"], kind, "kept" if part is first else "new")
            check_angles(m["angle"], V["vx"][s], V["vy"][s], V["vz"][s], b["Norm_x"][i], b["Norm_y"][i], En[s], mass, what)
            if kind == 1 and not own:
                ks(hilleret_u(En[s], E[i], m), what + ", energy")
            elif kind == 2 or kind == 0:
                ks(fp_u(m, kind, None, En[s], E[i]), what + ", energy")
            elif not sey.fp_dict(m["fp"])["conserve_energy"]:
                for k in range(1, m["fp"]["M_cut"] + 1):
                    j = cnt[i] == k
                    ks(fp_u(m, 1, k, En[s][j], E[i][j]), what + ", energy, %d secondaries" % k)
            out.append("%s/%d" % (m["model"], kind))
    return out or None


@check.sub("specular", st.fixed_dictionaries(dict(n=st.integers(0, 50), seed=gen.seeds, sc=gen.logfl(1, 1e8))), quick=300, thorough=5000, thorough_shards=1)
def specular_case(spec):
    r = gen.rng(spec["seed"])
    n = spec["n"]
    a = r.rand(n) * 2 * np.pi
    Nx, Ny = np.cos(a), np.sin(a)
    vx, vy = spec["sc"] * r.randn(n), spec["sc"] * r.randn(n)
    vn = vx * Nx + vy * Ny
    ux, uy = pye.electron_emission.specular_velocity(vx.copy(), vy.copy(), Nx, Ny, vn)
    require(gen.close(ux * Nx + uy * Ny, -vn, 1e-9, 1e-9 * spec["sc"]), "normal component is not reversed")
    require(gen.close(-ux * Ny + uy * Nx, -vx * Ny + vy * Nx, 1e-9, 1e-9 * spec["sc"]), "tangential component is not preserved")
    return "specular" if n else None


extr = st.one_of(sey.ecloud, sey.acc_low, sey.cos_le, sey.from_file).flatmap(lambda m: st.fixed_dictionaries(dict(
    m=st.just(m), E=gen.logfl(20, 2000), c=st.lists(gen.fl(0.05, 1), min_size=1, max_size=2), nb=st.integers(20, 200), f=gen.fl(0.3, 1.3))))


@check.sub("extracted", extr, quick=60, thorough=3000)
def extracted_case(s):
    """The energy histograms the program extracts from the configured model: as many electrons as were emitted, with its law."""
    sey.no_sleep()
    m = s["m"]
    mod = sey.build(m)
    im = pye.impact_management_class.impact_management(gen.build_chamber(dict(kind="ellip", a=0.02, b=0.01)), mod, 1e-3, 20., 10, 100.)
    n = 6000
    E = s["E"]
    got = im.extract_energy_distributions(n, E, s["c"], gen.M_E, s["nb"], max(s["f"], 1.0 + 2.0 / s["nb"]))
    g = got["emit_ene_g_hist"]
    D = g[1] - g[0]
    require(len(g) == s["nb"] and g[0] == 0 and abs(g[-1] - E * max(s["f"], 1.0 + 2.0 / s["nb"])) < 1e-9 * E, "energy grid")
    lab = None
    for i, c in enumerate(s["c"]):
        el, _, tr = (float(q[0]) for q in sey.parts(m, np.array([E]), np.array([c])))
        ref, true = got["elast"][:, i], got["true"][:, i]
        k = np.arange(len(g))
        require(not np.any(ref[np.abs(g - E) > 1.01 * D]), "reflected electrons at energies other than that of the impact")
        if m["switch"] == 2 or m["E_th"] < g[-1]:
            u = np.cumsum(true)
            N = u[-1]
            if N < 200:
                continue
            lo = hilleret_u(np.clip(g - D, 0, m["E_th"]), np.full(len(g), E), m)
            hi = hilleret_u(np.clip(g + D, 0, m["E_th"] if m["switch"] == 0 else min(E, m["E_th"])), np.full(len(g), E), m)
            if m["switch"] == 2 and E < m["thresh"]:
                continue
            tol = 5.2 / np.sqrt(N)
            require(np.all(u / N >= np.clip(lo, 0, 1) - tol) and np.all(u / N <= np.clip(hi, 0, 1) + tol),
                    "energies of the secondaries in the extracted histogram")
            lab = m["model"]
    return lab

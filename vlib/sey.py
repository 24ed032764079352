"""Emission models: generators, construction from a plain description, and independently written yield laws."""
import numpy as np
from hypothesis import strategies as st

from . import pye, gen

ANGLES = ("cosine_3D", "normal_emission")


def no_sleep():
    import time
    time.sleep = lambda s: None


common = dict(E_th=gen.fl(30, 60), sigmafit=gen.fl(0.3, 1.3), mufit=gen.fl(0.3, 2.0), switch=st.sampled_from([0, 2]),
              thresh=gen.fl(2.0, 10.0), angle=st.sampled_from(["cosine_3D", "cosine_3D", "normal_emission", "cosine_2D"]))


def _m(name, **kw):
    d = dict(model=st.just(name))
    d.update(common)
    d.update(kw)
    return st.fixed_dictionaries(d)


basic = dict(Emax=gen.fl(80, 500), del_max=gen.fl(0.1, 3.2), R0=gen.fl(0, 1))
fp_surface = st.fixed_dictionaries(dict(
    use_modified_sigmaE=st.booleans(), use_ECLOUD_theta0_dependence=st.booleans(), use_ECLOUD_energy=st.booleans(),
    conserve_energy=st.booleans(), exclude_rediffused=st.booleans(), M_cut=st.sampled_from([10, 10, 4]),
    seed=gen.seeds, p1EInf=gen.fl(0, .2), p1Ehat=gen.fl(0.2, .5), eEHat=gen.fl(0, 5), w=gen.fl(1, 100), p=gen.fl(.5, 2),
    e1=gen.fl(0, .3), e2=gen.fl(.5, 3), sigmaE=gen.fl(.5, 5), theta_e_max=st.sampled_from([None, None, 1.0, 1.4]),
    p1RInf=gen.fl(0, .25), eR=gen.fl(.02, 60), r=gen.fl(.1, 2), q=gen.fl(.2, 2), r1=gen.fl(0, .3), r2=gen.fl(.5, 3),
    theta_r_max=st.sampled_from([None, None, 1.0, 1.4]), deltaTSHat=gen.fl(.1, 2.2), eHat0=gen.fl(150, 400),
    s=gen.fl(1.2, 2.5), t1=gen.fl(0, 1), t2=gen.fl(.5, 2), t3=gen.fl(0, 1), t4=gen.fl(.5, 2)))
table = dict(seed=gen.seeds, n=st.integers(2, 400), emax=gen.logfl(50, 5000), smooth=st.booleans(),
             dscale=st.booleans(), eshift=st.booleans())

ecloud = _m("ECLOUD", E0=gen.fl(20, 300), s=gen.fl(1.1, 2.0), dscale=st.booleans(), eshift=st.booleans(), **basic)
acc_low = _m("ACC_LOW", E0=gen.fl(20, 300), Emax=basic["Emax"], del_max=basic["del_max"], R0=gen.fl(0, 0.97))
cos_le = _m("cos_low_ene", E0=gen.fl(5, 200), **basic)
flat_le = _m("flat_low_ene", **basic)
from_file = _m("from_file", **table)
furman = _m("furman_pivi", fp=fp_surface, dscale=st.booleans(), eshift=st.booleans())
absorber = st.fixed_dictionaries(dict(model=st.just("perfect_absorber")))
uniform_models = st.one_of(ecloud, acc_low, cos_le, flat_le, from_file, furman, absorber)


def random_model(r, names=("ECLOUD", "ACC_LOW", "cos_low_ene", "cos_low_ene", "flat_low_ene", "from_file", "furman_pivi")):
    """A model with every parameter away from special values, from a numpy random state."""
    u = lambda a, b: float(a + (b - a) * r.rand())
    b = lambda: bool(r.rand() < .5)
    pick = lambda v: v[r.randint(len(v))]
    k = pick(names)
    m = dict(model=k, E_th=u(30, 60), sigmafit=u(.4, 1.3), mufit=u(.8, 2), switch=pick([0, 2]), thresh=u(5, 60), angle=pick(["cosine_2D", "cosine_3D"]))
    basic = dict(Emax=u(100, 450), del_max=u(.8, 3), R0=u(.2, .9), E0=u(40, 250))
    if k == "from_file":
        return dict(m, seed=int(r.randint(2 ** 31)), n=int(r.randint(5, 100)), emax=u(300, 1500), smooth=b(), dscale=b(), eshift=b())
    if k == "furman_pivi":
        return dict(m, dscale=b(), eshift=b(), fp=dict(
            use_modified_sigmaE=b(), use_ECLOUD_theta0_dependence=b(), use_ECLOUD_energy=b(), conserve_energy=False, exclude_rediffused=b(), M_cut=10,
            seed=int(r.randint(2 ** 31)), p1EInf=u(0, .1), p1Ehat=u(.2, .4), eEHat=u(0, 5), w=u(10, 100), p=u(.5, 2), e1=u(0, .3), e2=u(.5, 3), sigmaE=u(2, 5),
            theta_e_max=pick([None, 1.0, 1.4]), p1RInf=u(.02, .2), eR=u(.02, 30), r=u(.1, 2), q=u(.2, 2), r1=u(0, .3), r2=u(.5, 3),
            theta_r_max=pick([None, 1.0, 1.4]), deltaTSHat=u(.3, 2), eHat0=u(150, 400), s=u(1.2, 2.2), t1=u(0, 1), t2=u(.5, 2), t3=u(0, 1), t4=u(.5, 2)))
    if k == "ACC_LOW":
        return dict(m, **basic)
    if k == "flat_low_ene":
        basic.pop("E0")
        return dict(m, **basic)
    if k == "cos_low_ene":
        return dict(m, **basic)
    return dict(m, s=u(1.2, 1.9), dscale=b(), eshift=b(), **basic)


def fp_dict(f):
    r = gen.rng(f["seed"])
    d = {k: v for k, v in f.items() if k != "seed" and v is not None}
    d["choice"] = "poisson"
    # rejection sampling of ECLOUD energies that must also fit below the impact energy does not terminate at low energy
    d["conserve_energy"] = bool(f["conserve_energy"] and not f["use_ECLOUD_energy"])
    d["p_n"] = 1.2 + 2 * r.rand(f["M_cut"])
    d["eps_n"] = 1.5 + 8 * r.rand(f["M_cut"])
    return d


def table_dict(m):
    r = gen.rng(m["seed"])
    n = m["n"]
    e = np.linspace(0, m["emax"], n)
    if m["smooth"]:
        t = 1.5 * (e / 300.) * 1.35 / (0.35 + (e / 300.) ** 1.35)
        l = 0.7 * np.exp(-e / 20.)
    else:
        t, l = 2 * r.rand(n), r.rand(n)
    gt, gl = -r.rand() * 1e-4, -r.rand() * 1e-4
    return dict(energy_eV=e, sey_true=t, sey_elast=l, extrapolate_grad_true=np.array(gt),
                extrapolate_const_true=np.array(1.0 + r.rand()), extrapolate_grad_elast=np.array(gl),
                extrapolate_const_elast=np.array(0.3 * r.rand()))


def emission_kwargs(m):
    return dict(E_th=m["E_th"], sigmafit=m["sigmafit"], mufit=m["mufit"], switch_no_increase_energy=m["switch"],
                thresh_low_energy=m["thresh"], secondary_angle_distribution=m["angle"])


def build(m):
    k = m["model"]
    if k == "perfect_absorber":
        return pye.sec_emission_model_perfect_absorber.SEY_model_perfect_absorber()
    kw = emission_kwargs(m)
    if k == "ECLOUD":
        return pye.sec_emission_model_ECLOUD.SEY_model_ECLOUD(
            m["Emax"], m["del_max"], m["R0"], E0=m["E0"], s=m["s"], flag_costheta_delta_scale=m["dscale"],
            flag_costheta_Emax_shift=m["eshift"], **kw)
    if k == "ACC_LOW":
        return pye.sec_emission_model_accurate_low_ene.SEY_model_acc_low_ene(m["Emax"], m["del_max"], m["R0"], E0=m["E0"], **kw)
    if k == "cos_low_ene":
        return pye.sec_emission_model_cos_low_ener.SEY_model_cos_le(m["Emax"], m["del_max"], m["R0"], E0=m["E0"], **kw)
    if k == "flat_low_ene":
        return pye.sec_emission_model_flat_low_ener.SEY_model_flat_le(m["Emax"], m["del_max"], m["R0"], **kw)
    if k == "from_file":
        return pye.sec_emission_model_from_file.SEY_model_from_file(table_dict(m), m["dscale"], m["eshift"], **kw)
    if k == "furman_pivi":
        return pye.sec_emission_model_furman_pivi.SEY_model_furman_pivi(
            fp_dict(m["fp"]), flag_costheta_delta_scale=m["dscale"], flag_costheta_Emax_shift=m["eshift"], **kw)
    raise ValueError(k)


def true_law(E, c, Emax, dmax, s, dscale=True, eshift=True):
    x = E / (Emax * (1 + 0.7 * (1 - c)) if eshift else Emax)
    d = dmax * np.exp((1 - c) / 2) if dscale else dmax
    return d * s * x / (s - 1 + x ** s)


def elastic_law(E, R0, E0):
    # ((sqrt(E) - sqrt(E+E0)) / (sqrt(E) + sqrt(E+E0)))**2, written without the difference
    return R0 * (E0 / (np.sqrt(E) + np.sqrt(E + E0)) ** 2) ** 2


def fp_parts(m, E, c):
    f = m["fp"]
    ds = m["dscale"]
    ec = f["use_ECLOUD_theta0_dependence"]
    ce = np.maximum(c, np.cos(f["theta_e_max"])) if f["theta_e_max"] else c
    cr = np.maximum(c, np.cos(f["theta_r_max"])) if f["theta_r_max"] else c
    de = f["p1EInf"] + (f["p1Ehat"] - f["p1EInf"]) * np.exp(-(np.abs(E - f["eEHat"]) / f["w"]) ** f["p"] / f["p"])
    if ds and not ec:
        de = de * (1 + f["e1"] * (1 - ce ** f["e2"]))
    dr = f["p1RInf"] * (1 - np.exp(-(E / f["eR"]) ** f["r"]))
    if ds:
        dr = dr * (1 + f["r1"] * (1 - cr ** f["r2"]))
    t3, t4 = (0.7, 1.0) if ec else (f["t3"], f["t4"])
    eh = f["eHat0"] * (1 + t3 * (1 - c ** t4)) if m["eshift"] else f["eHat0"]
    x = E / eh
    dt = f["deltaTSHat"] * f["s"] * x / (f["s"] - 1 + x ** f["s"])
    if ds:
        dt = dt * (np.exp((1 - c) / 2) if ec else 1 + f["t1"] * (1 - c ** f["t2"]))
    return de, dr, dt


def trunc_poisson_mean(lam, M):
    k = np.arange(M + 1)
    from scipy.special import gammaln
    w = np.exp(k * np.log(max(lam, 1e-300)) - gammaln(k + 1))
    return float((w * k).sum() / w.sum())


def parts(m, E, c):
    """(elastic, rediffused, true) charge expected per unit of impacting charge."""
    E, c = np.asarray(E, float), np.asarray(c, float)
    z = np.zeros_like(E)
    k = m["model"]
    if k == "perfect_absorber":
        return z, z, z
    if k == "ECLOUD":
        return elastic_law(E, m["R0"], m["E0"]), z, true_law(E, c, m["Emax"], m["del_max"], m["s"], m["dscale"], m["eshift"])
    if k == "ACC_LOW":
        return elastic_law(E, m["R0"], m["E0"]), z, true_law(E, c, m["Emax"], m["del_max"], 1.35)
    if k == "cos_low_ene":
        r = np.where(E < m["E0"], m["R0"] * np.cos(0.5 * np.pi * E / m["E0"]) ** 2, 0)
        return r, z, true_law(E, c, m["Emax"], m["del_max"], 1.35)
    if k == "flat_low_ene":
        t = true_law(E, c, m["Emax"], m["del_max"], 1.35)
        r = np.where((t < m["R0"]) & (E < m["Emax"]), m["R0"] - t, 0)
        return r, z, t
    if k == "from_file":
        d = table_dict(m)
        Et = E / (1 + 0.7 * (1 - c)) if m["eshift"] else E
        mx = d["energy_eV"].max()
        t = np.where(Et > mx, d["extrapolate_const_true"] + d["extrapolate_grad_true"] * Et,
                     np.interp(Et, d["energy_eV"], d["sey_true"]))
        l = np.where(E > mx, d["extrapolate_const_elast"] + d["extrapolate_grad_elast"] * E,
                     np.interp(E, d["energy_eV"], d["sey_elast"]))
        if m["dscale"]:
            t = t * np.exp((1 - c) / 2)
        return np.maximum(l, 0), z, np.maximum(t, 0)
    if k == "furman_pivi":
        de, dr, dt = fp_parts(m, E, c)
        if m["fp"]["exclude_rediffused"]:
            dr = z
        surv = 1 - de - dr
        dt = np.array([sv * trunc_poisson_mean(t / sv, m["fp"]["M_cut"]) for sv, t in zip(np.atleast_1d(surv), np.atleast_1d(dt))]).reshape(E.shape)
        return de, dr, dt
    raise ValueError(k)


def impact_batch(r, n, E, c, mass=gen.M_E, nel=None, segs=None):
    """Impacts with the given energies and incidence angles on walls of all orientations."""
    a = r.rand(n) * 2 * np.pi
    Nx, Ny = np.cos(a), np.sin(a)
    v = np.sqrt(2 * E * gen.E_CH / mass)
    ph = r.rand(n) * 2 * np.pi
    s = np.sqrt(np.maximum(1 - c ** 2, 0))
    vn = -v * c
    vt = v * s * np.cos(ph)
    vx, vy, vz = vn * Nx - vt * Ny, vn * Ny + vt * Nx, v * s * np.sin(ph)
    x, y, z = r.randn(n), r.randn(n), r.randn(n)
    return dict(mass=mass, nel_impact=np.ones(n) if nel is None else nel, x_impact=x, y_impact=y, z_impact=z,
                vx_impact=vx, vy_impact=vy, vz_impact=vz, Norm_x=Nx, Norm_y=Ny,
                i_found=segs, v_impact_n=vx * Nx + vy * Ny, E_impact_eV=E, costheta_impact=c)


OUT = ("nel_emit_tot_events", "event_type", "event_info", "nel_replace", "x_replace", "y_replace", "z_replace",
       "vx_replace", "vy_replace", "vz_replace", "i_seg_replace", "nel_new_MPs", "x_new_MPs", "y_new_MPs",
       "z_new_MPs", "vx_new_MPs", "vy_new_MPs", "vz_new_MPs", "i_seg_new_MPs")


def impacts(mod, b, nel_th=1e300, flag_seg=False):
    res = mod.impacts_on_surface(b["mass"], b["nel_impact"], b["x_impact"], b["y_impact"], b["z_impact"],
                                 b["vx_impact"], b["vy_impact"], b["vz_impact"], b["Norm_x"], b["Norm_y"],
                                 b["i_found"], b["v_impact_n"], b["E_impact_eV"], b["costheta_impact"], nel_th, flag_seg)
    return dict(zip(OUT, res))


# ------------------------------------------------------------------ surfaces with per-segment properties

def nunif_strategy(charging=None):
    from . import gen as g
    return st.fixed_dictionaries(dict(
        model=st.just("nunif"), charging=st.booleans() if charging is None else st.just(charging),
        chamb=g.chambers(("convex", "star")), seed=g.seeds, E0=gen.fl(20, 300), **dict(basic, **common)))


def nunif_chamber(m, defaults=None):
    """Chamber with per-segment properties, and the plain table the reference uses."""
    d, t = nunif_tables(m)
    from . import pye
    ch = pye.geom_impact_poly_fast_impact.polyg_cham_geom_object(d, True, flag_assume_convex=m["chamb"]["kind"] == "convex")
    return ch, t


def nunif_tables(m):
    """The chamber description with per-segment properties, and the plain table the reference uses."""
    c = m["chamb"]
    d = gen.chamber_dict(c)
    n = len(d["Vx"])
    r = gen.rng(m["seed"])
    t = dict(del_max=0.1 + 2 * r.rand(n), R0=r.rand(n), Emax=80 + 400 * r.rand(n))
    for k in t:
        dflt = r.rand(n) < 0.3
        t[k][dflt] = -1.0
        d[k + "_segments"] = t[k].copy()
    if m["charging"]:
        fc = (r.rand(n) < 0.5).astype(float)
        Q, EQ = 10 ** (-9 + 3 * r.rand(n)), 10 ** (3 * r.rand(n))
        tau = np.where(r.rand(n) < 0.5, 10 ** (-6 + 3 * r.rand(n)), -1.0)
        Q[fc == 0], EQ[fc == 0], tau[fc == 0] = -1.0, -1.0, -1.0
        d.update(flag_charging=fc.copy(), Q_max_segments=Q.copy(), EQ_segments=EQ.copy(), tau_segments=tau.copy())
        t.update(flag=fc > 0, Qmax=Q, EQ=EQ, tau=tau)
    return d, t


def nunif_build(m, ch):
    mo = pye.sec_emission_model_ECLOUD_nunif
    cls = mo.SEY_model_ECLOUD_non_unif_charging if m["charging"] else mo.SEY_model_ECLOUD_non_unif
    return cls(ch, m["Emax"], m["del_max"], m["R0"], E0=m["E0"], **emission_kwargs(m))


def nunif_resolved(m, t):
    """Per-segment (del_max, R0, Emax) with the configured default where the profile says so."""
    return tuple(np.where(t[k] < 0, m[k], t[k]) for k in ("del_max", "R0", "Emax"))

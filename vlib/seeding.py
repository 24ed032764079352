"""Simulations in which nothing moves, so that what primary generation adds in a step can be read off."""
import numpy as np
import scipy.stats as ss

from . import buildup as bu, gen, pye
from .harness import require

QE, C, KB = gen.E_CH, gen.C_L, 1.380649e-23
P = 1e-10


def ks(u, what, n_min=300):
    u = np.asarray(u, float)
    require(np.all(u >= -1e-9) and np.all(u <= 1 + 1e-9), what + ": outside the support")
    if len(u) < n_min:
        return
    d, p = ss.kstest(np.clip(u, 0, 1), "uniform")
    require(p > P, lambda: "%s: %d values, Kolmogorov-Smirnov distance %.4f (p = %.1e)" % (what, len(u), d, p))


def ks2(a, b, what, n_min=300):
    if len(a) < n_min:
        return
    # ties (points of a spike at rounding level) would only make the test more lenient
    d, p = ss.ks_2samp(a, b, method="asymp")
    require(p > P, lambda: "%s: %d values, two-sample distance %.4f (p = %.1e)" % (what, len(a), d, p))


def gauss(u, what):
    """Values of a standard Gaussian."""
    n = len(u)
    if n == 0:
        return
    require(np.abs(u).max() < 8.5, lambda: "%s: %.3g standard deviations" % (what, np.abs(u).max()))
    require(abs(np.mean(u)) * np.sqrt(n) < 7, lambda: "%s: mean of %d is %.3g standard deviations" % (what, n, np.mean(u)))
    if n >= 300:
        ks(ss.norm.cdf(u), what)


def gas_mean(P_nTorr, sigma, T, lam, Dt):
    """Electrons created in Dt by a beam of line density lam."""
    return P_nTorr * 1e-9 * 133.322 / (KB * T) * sigma * 1e-22 * C * lam * Dt


class Counter:
    """Every request is met by the whole number below or above the expected one, the mean being the expected one."""

    def __init__(self, what, rtol=3e-4):
        self.what, self.rtol, self.got, self.want, self.var, self.n = what, rtol, 0, 0.0, 0.0, 0

    def add(self, n, parts):
        """n macroparticles came from independent requests with the given expected numbers."""
        parts = np.asarray(parts, float)
        lo = np.sum(np.floor(parts * (1 - self.rtol))); hi = np.sum(np.ceil(parts * (1 + self.rtol)))
        require(lo <= n <= hi, lambda: "%s: %d macroparticles in a step, expected %s" % (self.what, n, list(parts)))
        f = parts - np.floor(parts)
        self.got += n; self.want += parts.sum(); self.var += np.sum(f * (1 - f)); self.n += 1

    def close(self):
        d = abs(self.got - self.want)
        # besides the systematic accuracy of physical constants
        require(d <= 7 * np.sqrt(self.var) + 2 + self.rtol * self.want,
                lambda: "%s: %d macroparticles in %d steps, expected %.2f (standard deviation %.2f)" %
                (self.what, self.got, self.n, self.want, np.sqrt(self.var)))


def still_config(s, machine, clouds=None, **sim):
    """A build-up configuration without beam field, space charge or motion.

    s: ch, beams (list of dicts: ppb, off, sz, pattern, sx, sy, px, py), Dt, steps, extra, profile"""
    c = s["ch"]
    X, Y = bu.half_size(c)
    Dt = s["Dt"]
    spac = s["steps"] * Dt
    mats = {"zero.mat": dict(xx=np.linspace(-2 * X, 2 * X, 4), yy=np.linspace(-2 * Y, 2 * Y, 4), Ex=np.zeros((4, 4)),
                             Ey=np.zeros((4, 4)))}
    beams = []
    for b in s["beams"]:
        beams.append(bu.base_beam(sigmax=b["sx"] * X, sigmay=b["sy"] * Y, x_beam_pos=b["px"] * X, y_beam_pos=b["py"] * Y,
                                  beam_field_file="zero.mat", b_spac=spac, fact_beam=b["ppb"], sigmaz=b["sz"] * Dt * C,
                                  t_offs=b["off"] * spac, filling_pattern_file=list(b["pattern"]), coast_dens=b.get("coast", 0.0)))
    n = len(beams[0]["filling_pattern_file"])
    for b in beams:
        b["filling_pattern_file"] = (b["filling_pattern_file"] * n)[:n]
    mach = dict(track_method="Boris", B0x=0.0, B0y=0.0, B0z=0.0, N_sub_steps=1)
    mach.update(bu.chamber_machine(c, mats))
    mach.update(machine)
    cfg = dict(sim=bu.base_sim(Dt=Dt, t_end=s["extra"] * Dt, t_sc_ON=1e3, Dh_sc=min(X, Y) / 3, N_mp_async_regen=10 ** 9), machine=mach,
               secem=bu.base_secem(switch_model="perfect_absorber"), beam=beams[0], mats=mats, clouds=clouds or {},
               sec_beams={"beam_%d.beam" % k: b for k, b in enumerate(beams[1:], 1)})
    cfg["sim"].update(sim)
    if len(beams) > 1:
        cfg["sim"]["secondary_beams_file_list"] = ["beam_%d.beam" % k for k in range(1, len(beams))]
    if clouds:
        cfg["sim"]["additional_clouds_file_list"] = sorted(clouds)
    if s.get("profile"):
        # main beam from a file with steps of unequal length
        r = gen.rng(s["profile"])
        N = int(n * s["steps"] + s["extra"] + 2)
        t = np.concatenate([[0], np.cumsum(Dt * (0.3 + 1.4 * r.rand(N)))])
        lam = 1e9 * np.clip(r.randn(len(t)) + 1, 0, None)
        mats["prof.mat"] = dict(t=t, lam_t_array=lam)
        beams[0].update(flag_bunched_beam=0, beam_long_prof_file="prof.mat", fact_beam=s["beams"][0]["ppb"] / 1e11)
    return cfg


def run(sim, cfg, each):
    """Calls each(cloud, i_step, before, after, dt) for every cloud and step; before and after are (n x 7) tables."""
    drv = bu.Stepper(sim)
    cols = ("x_mp", "y_mp", "z_mp", "vx_mp", "vy_mp", "vz_mp", "nel_mp")
    tab = lambda m: np.array([np.array(getattr(m, k)[:m.N_mp], float) for k in cols]).reshape(7, -1)
    first = True
    while not drv.done():
        old = None if first else [tab(cl.MP_e) for cl in sim.cloud_list]
        drv.step()
        if first:
            old = [np.zeros((7, 0)) for _ in sim.cloud_list]
            first = False
        dt = sim.beamtim.Dt_curr
        for cl, a in zip(sim.cloud_list, old):
            b = tab(cl.MP_e)
            require(b.shape[1] >= a.shape[1], "macroparticles disappeared")
            n = a.shape[1]
            a[:3] += dt * a[3:6]
            require(np.allclose(b[:, :n], a, rtol=1e-9, atol=1e-12), "existing macroparticles were changed")
            each(cl, drv.i, n, b, dt)

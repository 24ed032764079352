"""A cloud with some particles about to leave the chamber, and the reference book-keeping of their impacts."""
import numpy as np

from . import pye, gen, sey

COLS = ("x_mp", "y_mp", "z_mp", "vx_mp", "vy_mp", "vz_mp", "nel_mp")


def system(ch, ref, fsplit=2.0, n_max=60000, mass=gen.M_E, charge=-gen.E_CH, lifetime=True, fclean=1e-3):
    return pye.MP_system.MP_system(n_max, ref, fsplit, fclean, 1000, 10 ** 9, 500, ch.x_aper / 40, 21, 21, 21, 21, 21, 1e-4,
                                   ch, charge=charge, mass=mass, flag_lifetime_hist=lifetime, name="c")


def fill(mp, c, r, n, tmax, logv=(5.0, 7.5), frac_never=0.4, v=None):
    """n particles inside, with velocities over orders of magnitude."""
    x, y = gen.points_inside(c, n, r)
    if v is None:
        sp = 10 ** (logv[0] + (logv[1] - logv[0]) * r.rand(n))
        u = r.randn(3, n)
        v = u / np.sqrt((u ** 2).sum(0)) * sp
    z = 0.01 * r.randn(n)
    t = np.where(r.rand(n) < frac_never, -1.0, tmax * r.rand(n))
    nel = mp.nel_mp_ref * 10 ** (-2 + 2.5 * r.rand(n))
    mp.add_new_MPs(n, nel, x, y, z, v[0], v[1], v[2], t)


def rows(mp):
    n = int(mp.N_mp)
    a = [getattr(mp, k)[:n].copy() for k in COLS]
    a.append(mp.t_last_impact[:n].copy() if mp.flag_lifetime_hist else np.full(n, -1.0))
    return np.array(a)


def sort_rows(a):
    return a[:, np.lexsort(a)] if a.size else a


def drift(mp, dt):
    n = int(mp.N_mp)
    old = mp.get_positions()
    for p, v in (("x_mp", "vx_mp"), ("y_mp", "vy_mp"), ("z_mp", "vz_mp")):
        getattr(mp, p)[:n] = getattr(mp, p)[:n] + getattr(mp, v)[:n] * dt
    return old


def cic(x, w, bias, D, N):
    """Weights shared linearly by the two nearest grid points; what lies beyond the last goes to the last."""
    h = np.zeros(N)
    f = (np.asarray(x, float) - bias) / D
    i = np.floor(f).astype(int)
    hx = f - i
    over = i >= N - 1
    hx, i = np.where(over, 0.0, hx), np.where(over, N - 1, i)
    np.add.at(h, i, w * (1 - hx))
    np.add.at(h, np.minimum(i + 1, N - 1), w * hx)
    return h


class Recorder:
    """Passes everything on to the emission model and keeps what was asked and answered."""

    ARGS = ("mass", "nel_impact", "x_impact", "y_impact", "z_impact", "vx_impact", "vy_impact", "vz_impact", "Norm_x",
            "Norm_y", "i_found", "v_impact_n", "E_impact_eV", "costheta_impact", "nel_mp_th", "flag_seg")

    def __init__(self, mod):
        self.__dict__["mod"] = mod
        self.__dict__["calls"] = []

    def __getattr__(self, k):
        return getattr(self.mod, k)

    def impacts_on_surface(self, *a, **k):
        d = dict(zip(self.ARGS, a))
        d.update(k)
        d = {q: np.copy(v) if isinstance(v, np.ndarray) else v for q, v in d.items()}
        out = self.mod.impacts_on_surface(*a, **k)
        o = {q: np.copy(v) if isinstance(v, np.ndarray) else v for q, v in zip(sey.OUT, out)}
        self.calls.append((d, o))
        return out

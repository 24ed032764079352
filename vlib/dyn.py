"""Particle clouds and reference motion for the trackers."""
import math

import numpy as np
from hypothesis import strategies as st

from . import pye, gen

POS = ("x_mp", "y_mp", "z_mp")
VEL = ("vx_mp", "vy_mp", "vz_mp")
ALL = POS + VEL


def species(electron_only=False):
    if electron_only:
        return st.just([gen.M_E, -gen.E_CH])
    return st.tuples(st.sampled_from([1.0, 1.0, 1836.15, 28 * 1836.15, 0.3]), st.sampled_from([-1, -1, 1, 2, -2, 7])).map(
        lambda t: [gen.M_E * t[0], gen.E_CH * t[1]])


def cloud(n, tail, r, half, mass, charge, vmax=1e8):
    """A macroparticle system with n live particles and recognisable contents in the unused storage."""
    ch = pye.geom_impact_rect_fast_impact.rect_cham_geom_object(50.0, 50.0, 0)
    mp = pye.MP_system.MP_system(n + tail, 1.0, 2.0, 1e-3, n + tail, 10 ** 9, 10, 1.0, 5, 5, 5, 5, 5, 0.0, ch,
                                 charge=charge, mass=mass)
    m = n + tail
    mp.x_mp[:] = half * (2 * r.rand(m) - 1)
    mp.y_mp[:] = half * (2 * r.rand(m) - 1)
    mp.z_mp[:] = 0.1 * r.randn(m)
    u = r.randn(3, m)
    u /= np.sqrt((u ** 2).sum(0)) + 1e-300
    sp = 10 ** (3 + (np.log10(vmax) - 3) * r.rand(m)) * (r.rand(m) > 0.1)
    for k, name in enumerate(VEL):
        getattr(mp, name)[:] = sp * u[k]
    mp.nel_mp[:n] = 1.0 + r.rand(n)
    mp.N_mp = n
    return mp


def snap(mp):
    return np.array([getattr(mp, k).copy() for k in ALL])


def multipole_field(bn, bs, x, y):
    """By + i Bx = sum (b_n + i b'_n) (x + i y)^n / n!"""
    F = np.zeros(len(x), complex)
    z = x + 1j * y
    for n in range(max(len(bn), len(bs))):
        b = bn[n] if n < len(bn) else 0.0
        s = bs[n] if n < len(bs) else 0.0
        F = F + (b + 1j * s) * z ** n / math.factorial(n)
    return F.imag, F.real


class MapField:
    """Bilinear interpolation on a regular grid."""

    def __init__(self, m):
        r = gen.rng(m["seed"])
        h, self.nx, self.ny = m["half"], m["nx"], m["ny"]
        self.xx = np.linspace(-1.3 * h, 1.25 * h, self.nx)
        self.yy = np.linspace(-1.2 * h, 1.35 * h, self.ny)
        self.c = [m["amp"] * r.randn(self.nx, self.ny) for _ in range(3)]
        self.has_z = m["bz"]

    def save(self, path):
        import scipy.io as sio
        d = dict(xx=self.xx, yy=self.yy, Bx=self.c[0], By=self.c[1])
        if self.has_z:
            d["Bz"] = self.c[2]
        sio.savemat(path, d, oned_as="row")

    def __call__(self, x, y):
        fx = (x - self.xx[0]) / (self.xx[1] - self.xx[0])
        fy = (y - self.yy[0]) / (self.yy[1] - self.yy[0])
        i, j = np.floor(fx).astype(int), np.floor(fy).astype(int)
        ok = (i >= 0) & (i < self.nx - 1) & (j >= 0) & (j < self.ny - 1)
        i, j = np.clip(i, 0, self.nx - 2), np.clip(j, 0, self.ny - 2)
        u, v = fx - i, fy - j
        out = []
        for a in self.c:
            out.append(np.where(ok, a[i, j] * (1 - u) * (1 - v) + a[i + 1, j] * u * (1 - v) + a[i, j + 1] * (1 - u) * v
                                + a[i + 1, j + 1] * u * v, 0.0))
        if not self.has_z:
            out[2] = 0.0 * out[2]
        return np.array(out), ok


map_strategy = st.fixed_dictionaries(dict(seed=gen.seeds, nx=st.integers(3, 12), ny=st.integers(3, 12), amp=gen.logfl(1e-4, 5.0),
                                          bz=st.booleans()))


def rotate(v, t):
    """Rotation produced by v' = v + v x t, v+ = v + v' x 2t/(1+t^2): about t by -2 atan|t| (Rodrigues)."""
    T = np.sqrt((t ** 2).sum(0))
    k = np.where(T > 0, t / np.where(T > 0, T, 1.0), 0.0)
    a = -2 * np.arctan(T)
    kv = np.cross(k.T, v.T).T
    return v * np.cos(a) + kv * np.sin(a) + k * (k * v).sum(0) * (1 - np.cos(a))


def boris(x, v, E, Bfun, qm, dt, n):
    """x, v: (3, N); E: (3, N); Bfun(x, y) -> (3, N)."""
    x, v = x.copy(), v.copy()
    for _ in range(n):
        B = Bfun(x[0], x[1])
        v = v + 0.5 * qm * dt * E
        v = rotate(v, 0.5 * qm * dt * B)
        v = v + 0.5 * qm * dt * E
        x = x + v * dt
    return x, v

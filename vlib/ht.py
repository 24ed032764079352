"""Bunches of PyHEADTAIL and electron clouds to be traversed by them."""
import os
import numpy as np
from hypothesis import strategies as st

from . import buildup as bu, dyn, gen, impact, pye, sey

fl, logfl = gen.fl, gen.logfl
QE, C = gen.E_CH, gen.C_L
COORD = ("x", "xp", "y", "yp", "z", "dp")

bunch_spec = st.fixed_dictionaries(dict(
    n=st.integers(8, 300), seed=gen.seeds, sx=fl(0.02, 0.25), sy=fl(0.02, 0.25), cx=fl(-0.2, 0.2), cy=fl(-0.2, 0.2),
    kind=st.sampled_from(["p", "p", "pbar", "e", "ion"]), gamma=logfl(1.3, 8000.0), ppb=logfl(1e9, 5e11),
    sz=logfl(0.01, 1.0), holes=st.booleans(), wide=st.booleans()))

KIND = dict(p=(QE, bu.MP), pbar=(-QE, bu.MP), e=(-QE, gen.M_E), ion=(54 * QE, 129 * bu.MP))


def bunch(b, c):
    """A bunch for the chamber c."""
    from PyHEADTAIL.particles.particles import Particles
    X, Y = bu.half_size(c)
    r = gen.rng(b["seed"])
    n = b["n"]
    z = b["sz"] * r.randn(n)
    if b["holes"]:
        z = np.where(np.abs(z) < 0.4 * b["sz"], z + np.sign(z) * b["sz"], z)
    f = 6.0 if b["wide"] else 1.0           # some particles outside the chamber
    d = dict(x=X * (b["cx"] + b["sx"] * r.randn(n) * f), y=Y * (b["cy"] + b["sy"] * r.randn(n) * f),
             xp=1e-5 * r.randn(n), yp=1e-5 * r.randn(n), z=z, dp=1e-3 * r.randn(n))
    q, m = KIND[b["kind"]]
    return Particles(n, b["ppb"] / n, q, m, 26e3, b["gamma"], d)


def state(p):
    """Coordinates in the order of the particle numbers."""
    o = np.argsort(p.id)
    return np.array([np.array(getattr(p, k), float)[o] for k in COORD]) if len(o) else np.zeros((6, 0))


slicing = st.fixed_dictionaries(dict(n=st.integers(1, 8), cut=st.one_of(st.none(), fl(0.5, 3.0)), charge=st.booleans(), off=fl(-0.8, 0.8)))


def slicer(s, b):
    from PyHEADTAIL.particles.slicing import UniformBinSlicer, UniformChargeSlicer
    if s["cut"] is None:
        kw = {}
    else:
        kw = dict(z_cuts=((-s["cut"] + s["off"]) * b["sz"], (s["cut"] + s["off"]) * b["sz"]))
    return (UniformChargeSlicer if s["charge"] else UniformBinSlicer)(s["n"], **kw)


cloud_spec = st.fixed_dictionaries(dict(
    ch=bu.sim_chambers, seed=gen.seeds, dens=logfl(1e10, 1e14), nmp=st.integers(30, 250), E0=logfl(0.1, 100.0),
    track=st.sampled_from(["Boris", "BorisMultipole"]), B=st.sampled_from([0.0, 1e-3, 0.05, 0.5]), skew=st.booleans(),
    L=logfl(0.1, 1e4), nsub=fl(0.2, 5.4), kick=st.booleans(), reinterp=st.booleans(), sec=bu.sec_models,
    ox=st.sampled_from([None, 0.0, 0.13, -0.2]), oy=st.sampled_from([None, 0.0, 0.1, -0.15]),
    ex=st.sampled_from([None, True, True, False]), ey=st.sampled_from([None, True, True, False]),
    Dt=st.sampled_from([None, None, 1.0, 3.0]), pic=st.sampled_from(["FiniteDifferences_ShortleyWeller", "FiniteDifferences_Staircase"]), nsb=st.integers(1, 4)))


def config(s, dt):
    """Input files of the cloud s; dt: duration of a slice."""
    c = s["ch"]
    X, Y = bu.half_size(c)
    mats = {}
    mach = dict(track_method=s["track"])
    mach.update(bu.chamber_machine(c, mats))
    if s["track"] == "Boris":
        mach.update(B0x=s["B"] * 0.3, B0y=s["B"], B0z=-0.5 * s["B"], N_sub_steps=s["nsb"])
    else:
        mach.update(B_multip=[s["B"], 3.0 * s["B"]], N_sub_steps=s["nsb"])
        if s["skew"]:
            mach["B_skew"] = [0.1 * s["B"], -2.0 * s["B"]]
    n_el = s["dens"] * X * Y * 2.5
    mach.update(init_unif_flag=1, Nel_init_unif=n_el, E_init_unif=s["E0"], x_max_init_unif=X, x_min_init_unif=-X, y_max_init_unif=Y, y_min_init_unif=-Y)
    sim = bu.base_sim(Dt=None if s["Dt"] is None else s["Dt"] * dt, t_end=None, lam_th=None, nel_mp_ref_0=n_el / s["nmp"], fact_clean=1e-6, Dh_sc=2 * max(X, Y) / 14.0,
                      Dx_hist=X / 6.3, r_center=0.4 * min(X, Y), Dt_En_hist=1e-10, N_mp_max=30000)
    sim["PyPICmode"] = s["pic"]
    return dict(sim=sim, machine=mach, secem=bu.secem_of(s["sec"], mats), beam=bu.base_beam(), mats=mats, clouds={}, sec_beams={})


def offsets(s):
    X, Y = bu.half_size(s["ch"])
    return (s["ox"] or 0.0) * X, (s["oy"] or 0.0) * Y


def kwargs(s):
    X, Y = bu.half_size(s["ch"])
    kw = {}
    if s["ox"] is not None:
        kw["x_beam_offset"] = s["ox"] * X
    if s["oy"] is not None:
        kw["y_beam_offset"] = s["oy"] * Y
    if s["ex"] is not None:
        kw["enable_kick_x"] = s["ex"]
    if s["ey"] is not None:
        kw["enable_kick_y"] = s["ey"]
    return kw


def ecloud(s, cfg, dt, sl, mode, **kw):
    """The element; mode: slice by slice or not."""
    bu.write(cfg)
    # an element of a ring needs no description of a beam
    os.remove(cfg["sim"]["beam_parameters_file"])
    a = dict(L_ecloud=s["L"], slicer=None if mode else sl, Dt_ref=dt / s["nsub"], pyecl_input_folder="./", slice_by_slice_mode=mode,
             kick_mode_for_beam_field=s["kick"], force_interp_at_substeps_interacting_slices=s["reinterp"])
    a.update(kwargs(s))
    a.update(kw)
    return pye.PyEC4PyHT.Ecloud(**a)


def external(s, cfg):
    m = cfg["machine"]
    if s["track"] == "Boris":
        return lambda x, y: np.array([0 * x + m["B0x"], 0 * x + m["B0y"], 0 * x + m["B0z"]])

    def B(x, y):
        bx, by = dyn.multipole_field(m["B_multip"], m.get("B_skew") or [0.0], x, y)
        return np.array([bx, by, 0 * x])
    return B


def bilinear(xg, yg, F, x, y):
    """Field on the nodes interpolated at points; zero outside of the grid."""
    fx, fy = (x - xg[0]) / (xg[1] - xg[0]), (y - yg[0]) / (yg[1] - yg[0])
    i, j = np.floor(fx).astype(int), np.floor(fy).astype(int)
    ok = (i >= 0) & (i < len(xg) - 1) & (j >= 0) & (j < len(yg) - 1)
    i, j = np.clip(i, 0, len(xg) - 2), np.clip(j, 0, len(yg) - 2)
    u, v = fx - i, fy - j
    return np.where(ok, F[i, j] * (1 - u) * (1 - v) + F[i + 1, j] * u * (1 - v) + F[i, j + 1] * (1 - u) * v + F[i + 1, j + 1] * u * v, 0.0), ok


class Reference:
    """Fields of macroparticles in the chamber of a cloud, from a solver of its own."""

    def __init__(self, s, cfg):
        self.sc = pye.space_charge_class.space_charge(gen.build_chamber(s["ch"]), cfg["sim"]["Dh_sc"], PyPICmode=cfg["sim"].get("PyPICmode", "FiniteDifferences_ShortleyWeller"))
        self.xg, self.yg = np.array(self.sc.xg), np.array(self.sc.yg)

    def nodes(self, x, y, nel, charge):
        if len(x) == 0:
            return np.zeros((2, len(self.xg), len(self.yg)))
        p = self.sc.PyPICobj
        p.scatter(np.array(x), np.array(y), np.array(nel), charge=charge)
        p.solve()
        return np.array([np.array(p.efx), np.array(p.efy)])

    def at(self, F, x, y):
        """Nodal fields at points, interpolated by the solver's own rule (which, at the wall, leaves nodes outside of the chamber out)."""
        if len(x) == 0:
            return np.zeros((3, 0))
        p = self.sc.PyPICobj
        old = p.efx, p.efy
        p.efx, p.efy = np.asfortranarray(F[0]), np.asfortranarray(F[1])
        ex, ey = p.gather(np.array(x), np.array(y))
        p.efx, p.efy = old
        return np.array([ex, ey, 0 * x])


def fact(p, L):
    """Change of the slope of a particle of p per V/m over the length L."""
    return p.charge / (p.mass * p.beta ** 2 * p.gamma * C ** 2) * L

"""C12: the electric field of the beam(s): against an independent Gaussian-in-a-conducting-wall solution."""
import numpy as np
import scipy.io as sio
from hypothesis import strategies as st

from checks.c10 import exact_field
from vlib import buildup as bu, dyn, gen, pye
from vlib.harness import Check, require

EPS0 = 8.8541878128e-12
QE, C = gen.E_CH, gen.C_L
fl, logfl = gen.fl, gen.logfl

check = Check("C12", rule="a case is non-trivial when the beam field is compared, while the beam is above the threshold, at "
              "several points inside the chamber",
              assumptions=["the reference field is a Gaussian (closed form by quadrature) plus the image field of a boundary "
                           "fit; cases where that fit leaves a boundary residual above 0.2 % are not judged",
                           "grid-solver maps are judged within the discretisation error (rms), formula maps at their nodes"])

GL, GW = np.polynomial.legendre.leggauss(120)


def gauss_field(x, y, sx, sy):
    """Field of a unit line charge density with Gaussian profile in free space."""
    # q = m t / (1 - t): the integral over q in (0, inf) becomes one over t in (0, 1)
    out = []
    m = np.maximum(2 * sx * sx, np.hypot(x, y) ** 2)[:, None]
    t = 0.5 * (GL + 1)[None]
    w = 0.5 * GW[None]
    t, w = t ** 2, w * 2 * t          # resolves the region of small q
    q = m * t / (1 - t)
    dq = m / (1 - t) ** 2
    A, B = 2 * sx * sx + q, 2 * sy * sy + q
    e = np.exp(-x[:, None] ** 2 / A - y[:, None] ** 2 / B) * w * dq
    k = 1 / (2 * np.pi * EPS0)
    out = k * x * np.sum(e / (A ** 1.5 * B ** 0.5), 1), k * y * np.sum(e / (A ** 0.5 * B ** 1.5), 1)
    return out


def reference(c, sx, sy, x0, y0, xp, yp):
    """(Ex, Ey, residual) for a unit line density in the chamber."""
    h, hw = np.polynomial.hermite_e.hermegauss(9)
    hw = hw / hw.sum()
    X, Y = np.meshgrid(x0 + sx * h, y0 + sy * h)
    q = (hw[None] * hw[:, None]).ravel()
    X, Y = X.ravel(), Y.ravel()
    Fx, Fy, res, _ = exact_field(c, X, Y, q, xp, yp, True, image_only=True)
    Gx, Gy = gauss_field(xp - x0, yp - y0, sx, sy)
    return Fx + Gx, Fy + Gy, res


def beam(ch, **kw):
    d = dict(flag_bunched_beam=1, fact_beam=1e11, coast_dens=0.0, beam_charge=QE, beam_field_file="computeFD",
             lam_th_beam_field=1e4, b_spac=1e-9, sigmaz=0.05, t_offs=4e-10, filling_pattern_file=[1.0], Dt=5e-11, t_end=0.0,
             chamb=ch)
    d.update(kw)
    return pye.beam_and_timing.beam_and_timing(**d)


NESTED = 0.1


class Probe:
    def __init__(self, x, y, tail=3):
        self.N_mp = len(x)
        self.x_mp = np.concatenate([x, np.full(tail, 1e-4)])
        self.y_mp = np.concatenate([y, np.full(tail, -1e-4)])


def field(bt, x, y):
    a, b = bt.get_beam_eletric_field(Probe(x, y))
    return np.broadcast_to(np.array(a, float), (len(x),)), np.broadcast_to(np.array(b, float), (len(x),))


def at_peak(bt):
    k = int(np.argmax(bt.lam_t_array[:-1]))
    while bt.ii_curr < k:
        bt.next_time_step()
    require(bt.lam_t_curr == bt.lam_t_array[k], "line density is not that of the current step")
    return bt.lam_t_curr


CH = gen.chambers(kinds=("ellip", "ellip", "rect", "convex"), aper=fl(0.012, 0.03))


@check.sub("grid", st.fixed_dictionaries(dict(
    ch=CH, sx=fl(0.05, 0.14), asp=fl(0.4, 2.5), px=fl(-0.35, 0.35), py=fl(-0.35, 0.35), cen=st.booleans(), seed=gen.seeds,
    ng=st.integers(36, 60), mode=st.sampled_from(["computeFD", "computeFD", -1, "multigrid", "file"]),
    q=st.sampled_from([1.0, -1.0, 2.0]), lam=logfl(1e9, 1e13), th=st.sampled_from([0.5, 0.999, 1.0, 1.001, 2.0]))),
    quick=120, thorough=2400, shards=3)
def grid(s):
    c = s["ch"]
    ch = gen.build_chamber(c)
    X, Y = bu.half_size(c)
    m = min(X, Y)
    # at least one and a half cells per standard deviation
    Dh = 2 * m / s["ng"]
    sx = max(s["sx"] * m, 1.5 * Dh)
    sy = max(min(s["sx"] * s["asp"], 0.14) * m, 1.5 * Dh)
    x0, y0 = (0.0, 0.0) if s["cen"] else (s["px"] * m, s["py"] * m)
    ins, mm = gen.is_inside(c, np.array([x0]), np.array([y0]))
    if not ins[0] or mm[0] < 5.5 * max(sx, sy):
        return None
    r = gen.rng(s["seed"])
    kw = dict(sigmax=sx, sigmay=sy, x_beam_pos=x0, y_beam_pos=y0, Dh_beam_field=Dh, beam_charge=s["q"] * QE)
    lab = [str(s["mode"])]
    with pye.TempDir():
        if s["mode"] == "multigrid":
            kw.update(beam_field_file="compute_FDSW_multigrid", f_telescope_beam=0.5, N_nodes_discard_beam=3.0,
                      N_min_Dh_main_beam=10, target_grid_beam=dict(x_min_target=x0 - 2 * sx, x_max_target=x0 + 2 * sx,
                      y_min_target=y0 - 2 * sy, y_max_target=y0 + 2 * sy, Dh_target=min(Dh, 0.3 * min(sx, sy))))
        elif s["mode"] == "file":
            kw.update(save_beam_field_file_as="map.mat")
        else:
            kw.update(beam_field_file=s["mode"])
        # peak line density: that of the bunch at its centre
        lam0 = 1 / (np.sqrt(2 * np.pi) * 0.05)
        kw.update(fact_beam=s["lam"] / lam0)
        bt = beam(ch, lam_th_beam_field=s["th"] * s["lam"], **kw)
        if s["mode"] == "file":
            # a map made by this tool, for another beam, is reproduced (with the wrong sizes it is given: the map counts)
            bt0 = bt
            kw2 = dict(kw, beam_field_file="map.mat", save_beam_field_file_as=None, Dh_beam_field=None,
                       fact_beam=2 * kw["fact_beam"], beam_charge=-3 * QE)
            bt = beam(ch, lam_th_beam_field=s["th"] * s["lam"], **kw2)
    xp, yp = gen.points_inside(c, 250, r, 0.98)
    # some of them in the beam
    xb, yb = x0 + sx * r.randn(60), y0 + sy * r.randn(60)
    xp, yp = np.concatenate([xp, xb]), np.concatenate([yp, yb])
    ins, mm = gen.is_inside(c, xp, yp)
    keep = ins & (mm > 2 * Dh)
    xp, yp = xp[keep], yp[keep]
    lam = at_peak(bt)
    if s["mode"] == "file":
        at_peak(bt0)
        A = field(bt0, xp, yp)
        B = field(bt, xp, yp)
        f = -6.0 / s["q"]
        if bt0.lam_t_curr > bt0.lam_th_beam_field:
            sc = max(np.max(np.abs(A[0])), np.max(np.abs(A[1])))
            require(max(np.max(np.abs(B[0] - f * A[0])), np.max(np.abs(B[1] - f * A[1]))) <= 1e-9 * abs(f) * sc,
                    "the field from the saved map is not the field that was saved")
        s = dict(s, q=-3.0)
    Ex, Ey = field(bt, xp, yp)
    if not lam > s["th"] * s["lam"]:
        require(not np.any(Ex) and not np.any(Ey), "a field below the density threshold")
        return lab + ["below threshold"]
    Tx, Ty, res = reference(c, sx, sy, x0, y0, xp, yp)
    if res > 2e-3:
        return None
    f = s["q"] * QE * lam
    Tx, Ty = f * Tx, f * Ty
    ref = np.sqrt(np.mean(Tx ** 2 + Ty ** 2))
    err = np.sqrt(np.mean((Ex - Tx) ** 2 + (Ey - Ty) ** 2)) / ref
    k = min(sx, sy) / Dh
    require(err <= max(0.04, 0.26 / k ** 2), lambda: "field of the beam (%s) differs from that of the configured beam by %.3f of its rms" %
            (s["mode"], err))
    # far from the charge the solution is smooth, and the comparison sharper
    far = np.hypot((xp - x0) / (sx + 2 * Dh), (yp - y0) / (sy + 2 * Dh)) > 3
    if far.sum() > 10:
        rf = np.sqrt(np.mean((Tx ** 2 + Ty ** 2)[far]))
        ef = np.sqrt(np.mean(((Ex - Tx) ** 2 + (Ey - Ty) ** 2)[far])) / rf
        require(ef <= 0.02, lambda: "field of the beam (%s) differs at a distance by %.3f of its rms" % (s["mode"], ef))
    # no macroparticles, and before the bunch
    require(np.all(np.asarray(bt.get_beam_eletric_field(Probe(np.zeros(0), np.zeros(0)))) == 0), "a field without particles")
    if len(xp) > 20:
        return lab + (["centred"] if s["cen"] else ["displaced"])


@check.sub("nested", st.fixed_dictionaries(dict(
    ch=CH, ng=st.integers(14, 30), u=fl(0.15, 0.9), asp=fl(0.5, 2.0), px=fl(-0.4, 0.4), py=fl(-0.4, 0.4), cen=st.booleans(), seed=gen.seeds,
    ft=fl(0.3, 0.6), nd=st.sampled_from([3.0, 5.0]), nmin=st.sampled_from([8, 10, 12]), hw=fl(3.0, 5.0), lam=logfl(1e9, 1e13), q=st.sampled_from([1.0, -1.0]))),
    quick=40, thorough=900, shards=2)
def nested(s):
    """Nested grids resolve a beam that is smaller than a cell of the main grid."""
    c = s["ch"]
    ch = gen.build_chamber(c)
    X, Y = bu.half_size(c)
    m = min(X, Y)
    Dh = 2 * m / s["ng"]
    sx = s["u"] * Dh
    sy = min(max(sx * s["asp"], 0.15 * Dh), 0.9 * Dh)
    x0, y0 = (0.0, 0.0) if s["cen"] else (s["px"] * m, s["py"] * m)
    ins, mm = gen.is_inside(c, np.array([x0]), np.array([y0]))
    if not ins[0] or mm[0] < max(7 * max(sx, sy), 4 * Dh):
        return None
    hx, hy = s["hw"] * sx, s["hw"] * sy
    with pye.TempDir():
        try:
            bt = beam(ch, sigmax=sx, sigmay=sy, x_beam_pos=x0, y_beam_pos=y0, Dh_beam_field=Dh, beam_charge=s["q"] * QE, lam_th_beam_field=0.0,
                      fact_beam=s["lam"] * np.sqrt(2 * np.pi) * 0.05, beam_field_file="compute_FDSW_multigrid", f_telescope_beam=s["ft"],
                      N_nodes_discard_beam=s["nd"], N_min_Dh_main_beam=s["nmin"], target_grid_beam=dict(x_min_target=x0 - hx, x_max_target=x0 + hx,
                      y_min_target=y0 - hy, y_max_target=y0 + hy, Dh_target=0.3 * min(sx, sy)))
        except ValueError as e:
            if "internal grid is outside" not in str(e):
                raise
            return None
    r = gen.rng(s["seed"])
    xp, yp = x0 + 1.5 * sx * r.randn(200), y0 + 1.5 * sy * r.randn(200)
    xw, yw = gen.points_inside(c, 150, r, 0.98)
    xp, yp = np.concatenate([xp, xw]), np.concatenate([yp, yw])
    ins, mm = gen.is_inside(c, xp, yp)
    keep = ins & (mm > 2 * Dh)
    xp, yp = xp[keep], yp[keep]
    lam = at_peak(bt)
    Ex, Ey = field(bt, xp, yp)
    Tx, Ty, res = reference(c, sx, sy, x0, y0, xp, yp)
    if res > 2e-3 or len(xp) < 60:
        return None
    f = s["q"] * QE * lam
    d = np.hypot(Ex - f * Tx, Ey - f * Ty)
    mag = np.hypot(f * Tx, f * Ty)
    err = np.sqrt(np.mean(d ** 2) / np.mean(mag ** 2))
    require(err <= NESTED, lambda: "field of the beam from nested grids differs from that of the configured beam by %.3f of its rms" % err)
    return "centred" if s["cen"] else "displaced"


@check.sub("formula", st.fixed_dictionaries(dict(
    a=fl(0.01, 0.03), ratio=st.one_of(fl(0.45, 2.2), st.just(1.0), fl(0.9995, 1.0005)), sx=logfl(0.004, 0.12),
    asp=st.one_of(logfl(0.15, 6.0), st.just(1.0), fl(0.999999, 1.000001)), nx=st.integers(9, 22), ny=st.integers(9, 22),
    q=st.sampled_from([1.0, -2.0]))), quick=60, thorough=1500, shards=2)
def formula(s):
    """Bassetti-Erskine maps of a centred beam in an ellipse (wide, tall or round), beams flat, upright or round."""
    a, b = s["a"], s["a"] * s["ratio"]
    c = dict(kind="ellip", a=a, b=b)
    ch = gen.build_chamber(c)
    m = min(a, b)
    sx = s["sx"] * m
    sy = sx if s["asp"] == 1.0 else min(max(sx * s["asp"], 0.002 * m), 0.12 * m)
    with pye.TempDir():
        bt = beam(ch, sigmax=sx, sigmay=sy, beam_field_file="computeBE", Nx=s["nx"], Ny=s["ny"], nimag=30,
                  beam_charge=s["q"] * QE, save_beam_field_file_as="map.mat")
        m2 = sio.loadmat("map.mat")
    xx, yy = np.squeeze(m2["xx"]), np.squeeze(m2["yy"])
    require(len(xx) == s["nx"] and len(yy) == s["ny"], "map of %d x %d nodes" % (len(xx), len(yy)))
    require(xx[0] <= -a and xx[-1] >= a and yy[0] <= -b and yy[-1] >= b, "the map does not cover the chamber")
    xg, yg = np.meshgrid(xx, yy, indexing="ij")
    xp, yp = xg.ravel(), yg.ravel()
    ins = (xp / a) ** 2 + (yp / b) ** 2 < 0.96
    xp, yp = xp[ins], yp[ins]
    lam = at_peak(bt)
    Ex, Ey = field(bt, xp, yp)
    Tx, Ty, res = reference(c, sx, sy, 0.0, 0.0, xp, yp)
    if res > 2e-4:
        return None
    f = s["q"] * QE * lam
    Tx, Ty = f * Tx, f * Ty
    top = np.max(np.hypot(Tx, Ty))
    # the images are those of a line charge at the beam's centre; chambers round within 1e-3 are treated as round
    tol = 2e-3 + 2 * abs(sx * sx - sy * sy) / m ** 2
    bad = np.hypot(Ex - Tx, Ey - Ty)
    require(np.all(np.isfinite(Ex)) and np.all(np.isfinite(Ey)), "field map with values that are not finite")
    k = int(np.argmax(bad))
    require(bad[k] <= tol * top, lambda: "at (%g, %g): field (%g, %g), expected (%g, %g)" %
            (xp[k], yp[k], Ex[k], Ey[k], Tx[k], Ty[k]))
    if len(xp) > 8:
        return ["round chamber" if abs(s["ratio"] - 1) < 1e-3 else "tall" if s["ratio"] > 1 else "wide",
                "round beam" if sx == sy else "elongated beam"]


@check.sub("formula-core", st.fixed_dictionaries(dict(
    a=fl(0.01, 0.03), ratio=st.one_of(fl(0.35, 2.9), fl(0.35, 2.9), st.just(1.0), fl(0.9985, 1.0015)), sx=logfl(0.003, 0.5),
    asp=st.one_of(logfl(0.12, 8.0), logfl(0.12, 8.0), logfl(0.9, 1.1), st.just(1.0)), nx=st.integers(7, 34), ny=st.integers(7, 34),
    nimag=st.integers(24, 60))), quick=120, thorough=3000, shards=2)
def formula_core(s):
    """The analytic maps node by node, from the core of the beam to the wall: a Gaussian beam in free space plus the images
    of a line charge at its centre (so beams may be as large as the chamber), with a local tolerance."""
    a, b = s["a"], s["a"] * s["ratio"]
    c = dict(kind="ellip", a=a, b=b)
    m = min(a, b)
    sx = s["sx"] * m
    sy = sx if s["asp"] == 1.0 else min(max(sx * s["asp"], 0.002 * m), 0.8 * m)
    with pye.TempDir():
        bt = beam(gen.build_chamber(c), sigmax=sx, sigmay=sy, beam_field_file="computeBE", Nx=s["nx"], Ny=s["ny"],
                  nimag=s["nimag"], save_beam_field_file_as="map.mat")
        m2 = sio.loadmat("map.mat")
    xg, yg = np.meshgrid(np.squeeze(m2["xx"]), np.squeeze(m2["yy"]), indexing="ij")
    xp, yp = xg.ravel(), yg.ravel()
    ins = ((xp / a) ** 2 + (yp / b) ** 2 < 1.0) & (np.hypot(xp, yp) > 1e-9 * a)
    xp, yp = xp[ins], yp[ins]
    at_peak(bt)
    Ex, Ey = field(bt, xp, yp)
    Ex, Ey = Ex / (QE * bt.lam_t_curr), Ey / (QE * bt.lam_t_curr)
    Ix, Iy, res, _ = exact_field(c, np.zeros(1), np.zeros(1), np.ones(1), xp, yp, True, image_only=True)
    Gx, Gy = gauss_field(xp, yp, sx, sy)
    if res > 1e-9:
        return None
    loc = np.hypot(Gx, Gy) + np.hypot(Ix, Iy)
    tol = 1e-4 * loc + (3.0 * abs(s["ratio"] - 1) / (2 * np.pi * EPS0 * m) if abs(s["ratio"] - 1) < 1.1e-3 else 0.0)
    d = np.hypot(Ex - Gx - Ix, Ey - Gy - Iy)
    k = int(np.argmax(d / tol))
    require(d[k] <= tol[k], lambda: "at (%g, %g), %g and %g beam sizes from the centre: field (%g, %g) per unit charge, expected "
            "(%g, %g) of the beam and (%g, %g) of its images" % (xp[k], yp[k], xp[k] / sx, yp[k] / sy, Ex[k], Ey[k], Gx[k], Gy[k],
                                                                 Ix[k], Iy[k]))
    core = np.sum((np.abs(xp) < 2 * sx) & (np.abs(yp) < 2 * sy))
    if len(xp) > 8:
        return ["upright beam" if sy > sx else "flat beam" if sx > sy else "round beam"] + ["core"] * (core > 3)


@check.sub("image-terms", st.fixed_dictionaries(dict(a=fl(0.01, 0.03), ratio=st.one_of(fl(0.3, 0.99), fl(1.02, 3.0)), fx=fl(-0.7, 0.7), fy=fl(-0.7, 0.7),
                                                     nimag=st.integers(30, 60), seed=gen.seeds)), quick=80, thorough=3000)
def image_terms(s):
    """The field of the image charges of a line charge anywhere in the ellipse, point by point."""
    a, b = s["a"], s["a"] * s["ratio"]
    c = dict(kind="ellip", a=a, b=b)
    x0, y0 = s["fx"] * a, s["fy"] * b
    if (x0 / a) ** 2 + (y0 / b) ** 2 > 0.6:
        x0, y0 = 0.6 * x0, 0.6 * y0
    r = gen.rng(s["seed"])
    rho, th = np.sqrt(r.rand(25)) * 0.9, 2 * np.pi * r.rand(25)
    xp, yp = a * rho * np.cos(th), b * rho * np.sin(th)
    Ix, Iy, res, _ = exact_field(c, np.array([x0]), np.array([y0]), np.ones(1), xp, yp, True, image_only=True)
    if res > 1e-9:
        return None
    d = []
    for x, y, ix, iy in zip(xp, yp, Ix, Iy):
        Ex, Ey = pye.BassErsk.ImageTerms(float(x), float(y), a, b, x0, y0, s["nimag"])
        Fx, Fy = pye.BassErsk.ImageTerms(float(x), float(y), a, b, x0, y0, s["nimag"] - 8)
        d.append((np.hypot(Ex - ix, Ey - iy), np.hypot(Ex - Fx, Ey - Fy)))
    d = np.array(d)
    sc = np.max(np.hypot(Ix, Iy)) + 1e-3 / (2 * np.pi * EPS0 * max(a, b))
    if np.max(d[:, 1]) > 1e-5 * sc:
        return None
    require(np.all(d[:, 0] <= 1e-4 * sc), lambda: "images of a charge at (%g, %g) in an ellipse of %g by %g: the field is off by %g of the largest" % (
        x0, y0, a, b, np.max(d[:, 0]) / sc))
    return "off centre" if abs(x0) > 0.05 * a and abs(y0) > 0.05 * b else "near an axis"


@check.sub("refused", st.sampled_from([0, 1, 2, 3, 4, 5, 6]), quick=14, thorough=14)
def refused(k):
    """Requests that cannot be honoured are errors."""
    e = gen.build_chamber(dict(kind="ellip", a=0.02, b=0.01))
    q = gen.build_chamber(dict(kind="rect", a=0.02, b=0.01))
    be = dict(sigmax=1e-3, sigmay=2e-3, beam_field_file="computeBE", Nx=5, Ny=5, nimag=3)
    bad = [(q, be), (e, dict(be, Nx=None)), (e, dict(be, nimag=None)), (e, dict(be, x_beam_pos=1e-3)),
           (e, dict(be, y_beam_pos=1e-3)), (e, dict(sigmax=1e-3, sigmay=1e-3)),
           (e, dict(be, x_beam_pos=0.015, y_beam_pos=0.009, beam_field_file="computeFD", Dh_beam_field=2e-3))][k]
    try:
        beam(bad[0], **bad[1])
    except ValueError:
        return "refused"
    require(False, "accepted: %s" % bad[1])


optics = dict(beta=logfl(1.0, 500.0), nemit=logfl(1e-7, 1e-5), D=st.sampled_from([0.0, 0.5, -2.0]),
              file=st.sampled_from(["beam", "machine"]), given=st.sampled_from([False, False, True]))


@check.sub("sizes", st.fixed_dictionaries(dict(x=st.fixed_dictionaries(optics), y=st.fixed_dictionaries(optics),
           E=logfl(2e9, 7e12), dpp=st.sampled_from([0.0, 1e-4, 3e-3]), m0=st.sampled_from([None, gen.M_E, 1.67262192369e-27]),
           two=st.booleans())), quick=80, thorough=2000)
def sizes(s):
    """Sizes from emittance, optics and momentum spread (optics in the beam file or, for old set-ups, in the machine file)."""
    def one(s, k):
        d = dict(energy_eV=s["E"] * k, sigmax=-1, sigmay=-1, Dp_p=s["dpp"], b_spac=5e-10, fact_beam=1e11, coast_dens=0.0,
                 flag_bunched_beam=1, sigmaz=0.015, t_offs=2e-10, filling_pattern_file=[1.0], beam_field_file="computeFD",
                 Dh_beam_field=2e-3)
        if s["m0"] is not None:
            d["m0_part"] = s["m0"]
        m0 = s["m0"] or 1.67262192369e-27
        g = s["E"] * k * QE / (m0 * C ** 2)
        mach, want = [None] * 4, []
        for i, p in enumerate("xy"):
            o = s[p]
            if o["given"]:
                d["sigma" + p] = 1e-3 * (1 + i)
                want.append(d["sigma" + p])
                continue
            d["nemitt" + p] = o["nemit"]
            # the beam file counts where both give optics
            mach[2 * i], mach[2 * i + 1] = (o["beta"], o["D"]) if o["file"] == "machine" else (7.7 * o["beta"], 3.3)
            if o["file"] == "beam":
                d["betaf" + p], d["D" + p] = o["beta"], o["D"]
            want.append(np.sqrt(o["beta"] * o["nemit"] / np.sqrt(g * g - 1) + (o["D"] * s["dpp"]) ** 2))
        with open("b%g.beam" % k, "w") as f:
            f.write(bu.dump_vars(d))
        got = pye.parse_beam_file.beam_descr_from_fil("b%g.beam" % k, *mach)
        for p, w in zip("xy", want):
            v = getattr(got, "sigma" + p)
            require(abs(v - w) <= 1e-6 * w, lambda: "sigma%s = %g for %s, expected %g" % (p, v, s, w))
        require(abs(got.gamma_rel - g) <= 1e-6 * g, "gamma %g, expected %g" % (got.gamma_rel, g))
        require(abs(got.beta_rel - np.sqrt(1 - 1 / g ** 2)) <= 1e-9, "beta")
    with pye.TempDir():
        one(s, 1.0)
        if s["two"]:
            one(dict(s, x=s["y"], y=s["x"]), 1.7)
    if not (s["x"]["given"] and s["y"]["given"]):
        return ["optics", "electrons" if s["m0"] == gen.M_E else "protons"]


@check.sub("several", st.fixed_dictionaries(dict(
    ch=gen.chambers(kinds=("ellip", "rect"), aper=fl(0.012, 0.03)), n=st.integers(0, 2), seed=gen.seeds,
    ppb=logfl(1e10, 3e11), q=st.lists(st.sampled_from([QE, -QE, 2 * QE]), min_size=3, max_size=3),
    off=st.lists(fl(0.0, 1.0), min_size=2, max_size=2), reinterp=st.sampled_from([False, False, True]),
    early=st.booleans(), nsub=st.integers(1, 3))), quick=40, thorough=900, shards=2)
def several(s):
    """In a simulation: the kick on the electrons is that of all beams together, with each one's own line density."""
    c = s["ch"]
    X, Y = bu.half_size(c)
    r = gen.rng(s["seed"])
    Dt, spac = 2.5e-11, 5e-10
    Dh = 2 * min(X, Y) / 12
    beams = [bu.base_beam(sigmax=0.08 * X, sigmay=0.1 * Y, Dh_beam_field=Dh, b_spac=spac, fact_beam=s["ppb"],
                          sigmaz=0.012, t_offs=1.2e-10, filling_pattern_file=[1.0], q_part=s["q"][0],
                          x_beam_pos=0.2 * X * r.uniform(-1, 1), y_beam_pos=0.2 * Y * r.uniform(-1, 1))]
    for k in range(s["n"]):
        beams.append(dict(beams[0], x_beam_pos=0.3 * X * r.uniform(-1, 1), y_beam_pos=0.3 * Y * r.uniform(-1, 1),
                          sigmax=0.06 * X, t_offs=(0.3 + 0.6 * s["off"][k]) * spac, fact_beam=s["ppb"] * r.uniform(0.3, 3),
                          q_part=s["q"][k + 1], sigmaz=0.02))
    cfg = dict(sim=bu.base_sim(Dt=Dt, t_sc_ON=1e3, Dh_sc=Dh, nel_mp_ref_0=1.0), mats={}, clouds={}, beam=beams[0],
               machine=dict(track_method="Boris", B0x=0.0, B0y=0.0, B0z=0.0, N_sub_steps=s["nsub"], init_unif_flag=1, Nel_init_unif=150.0,
                            E_init_unif=0.1, x_max_init_unif=X, x_min_init_unif=-X, y_max_init_unif=Y, y_min_init_unif=-Y),
               secem=bu.base_secem(), sec_beams={"b%d.beam" % k: b for k, b in enumerate(beams[1:], 1)})
    cfg["machine"].update(bu.chamber_machine(c, cfg["mats"]))
    if s["n"]:
        cfg["sim"].update(secondary_beams_file_list=["b%d.beam" % k for k in range(1, s["n"] + 1)])
    with pye.TempDir():
        sim = bu.make(cfg)
        all_b = [sim.beamtim] + list(sim.sec_beams_list)
        require(len(all_b) == 1 + s["n"], "%d beams" % len(all_b))
        ch = gen.build_chamber(c)
        # independent fields, one beam at a time (their field computation is judged in the other parts)
        own = [beam(ch, Dh_beam_field=Dh, sigmax=b["sigmax"], sigmay=b["sigmay"], x_beam_pos=b["x_beam_pos"],
                    y_beam_pos=b["y_beam_pos"], beam_charge=b["q_part"], fact_beam=b["fact_beam"], sigmaz=b["sigmaz"],
                    t_offs=b["t_offs"], b_spac=spac, Dt=Dt, filling_pattern_file=[1.0], lam_th_beam_field=1e2) for b in beams]
        drv = bu.Stepper(sim)
        cl = sim.cloud_list[0]
        first = True
        seen = 0
        while not drv.done():
            m = cl.MP_e
            n = m.N_mp if not first else 0
            old = [np.array(getattr(m, k)[:n]) for k in ("x_mp", "y_mp", "z_mp", "vx_mp", "vy_mp", "vz_mp")]
            drv.step()
            for b in own:
                b.next_time_step()
            first = False
            if not n:
                continue
            E = [field(b, old[0], old[1]) for b in own]
            Ex, Ey = sum(e[0] for e in E), sum(e[1] for e in E)
            qm = -QE / gen.M_E
            h = Dt / s["nsub"]
            x, y, vx, vy = old[0], old[1], old[3], old[4]
            for _ in range(s["nsub"]):
                vx, vy = vx + qm * Ex * h, vy + qm * Ey * h
                x, y = x + vx * h, y + vy * h
            ins, mm = gen.is_inside(c, x, y)
            ok = ins & (mm > 1e-6 * X)
            sc = np.max(np.hypot(vx, vy)) + 1.0
            err = np.hypot(m.vx_mp[:n] - vx, m.vy_mp[:n] - vy)[ok]
            require(np.all(err <= 1e-6 * sc), lambda: "step %d: an electron's velocity differs by %g from the one in the fields "
                    "of the %d beams (largest speed %g)" % (drv.i, np.max(err), len(own), sc))
            require(np.all(np.hypot(m.x_mp[:n] - x, m.y_mp[:n] - y)[ok] <= 1e-6 * X), "position after the kick")
            if np.any(Ex) and ok.sum() > 5:
                seen += sum(bool(np.any(e[0])) for e in E) == len(own)
    if seen:
        return ["beams%d" % len(own)]

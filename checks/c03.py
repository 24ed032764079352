"""C03: impact point, normal and segment of inside-to-outside displacements against exact ray/wall intersection."""
import numpy as np
from hypothesis import strategies as st

from vlib import pye, gen
from vlib.harness import Check, Violation, require

check = Check("C03", rule="batch with at least one displacement whose impact point, normal and segment were all compared "
              "(start inside and end outside by the reference, wall crossed away from a vertex)",
              assumptions=["starting points at least 1e-9 of the aperture inside (1e-13 m for the near-wall class, where "
                           "only containment and normal are compared)",
                           "for the ellipse a crossing closer than 1% of the displacement may be put at its start",
                           "within 1e-7 of a vertex either adjacent edge is accepted"])

spec_s = st.fixed_dictionaries(dict(
    chamb=gen.chambers(aper=gen.logfl(1e-3, 0.3)), n=st.one_of(st.integers(1, 3), st.integers(4, 150)), seed=gen.seeds,
    start=st.sampled_from(["any", "any", "wall", "centre"]),
    length=st.sampled_from(["any", "any", "short", "long", "axis", "vertex", "grazing"]),
    resc=st.sampled_from([0.99, 0.99, 0.9, 0.999, 0.9999, 1.0]), robust=st.booleans()))


@check.sub("crossing", spec_s, quick=12500, thorough=100000, shards=4, thorough_shards=8)
def crossing_case(spec):
    c = spec["chamb"]
    r = gen.rng(spec["seed"])
    n = spec["n"]
    ch = gen.build_chamber(c)
    poly = c["kind"] != "ellip"
    if poly:
        Vx, Vy = gen.chamber_vertices(c)
        X, Y = np.max(np.abs(Vx)), np.max(np.abs(Vy))
    else:
        X, Y = c["a"], c["b"]
    S = max(X, Y)
    s = min(X, Y)
    if spec["start"] == "any":
        x0, y0 = gen.points_inside(c, n, r)
    elif spec["start"] == "centre":
        x0, y0 = (2 * r.rand(n) - 1) * 1e-3 * s, (2 * r.rand(n) - 1) * 1e-3 * s
        if n > 1:
            x0[0] = y0[0] = 0.0
    else:
        # just inside the wall
        h = np.maximum(10 ** (-13 + 10 * r.rand(n)), 1e-12 * S)
        if poly:
            i = r.randint(0, len(Vx), n)
            j = (i + 1) % len(Vx)
            u = 0.05 + 0.9 * r.rand(n)
            ex, ey = Vx[j] - Vx[i], Vy[j] - Vy[i]
            L = np.hypot(ex, ey)
            x0, y0 = Vx[i] + u * ex - h * ey / L, Vy[i] + u * ey + h * ex / L
        else:
            t = r.rand(n) * 2 * np.pi
            x0, y0 = (X - h) * np.cos(t), (Y - h) * np.sin(t)
    th = r.rand(n) * 2 * np.pi
    ln = spec["length"]
    if ln == "any":
        d = S * 10 ** (-2 + 3 * r.rand(n))
    elif ln == "short":
        d = S * 10 ** (-7 + 6 * r.rand(n))
    elif ln == "long":
        d = S * 10 ** (1 + 3 * r.rand(n))
    else:
        d = S * 10 ** (-1 + 2 * r.rand(n))
    if ln == "axis":
        th = r.randint(0, 4, n) * (np.pi / 2)
        dx, dy = np.round(np.cos(th)) * d, np.round(np.sin(th)) * d
        x1, y1 = x0 + dx, y0 + dy
    elif ln == "vertex" and poly:
        k = r.randint(0, len(Vx), n)
        f = 1 + r.rand(n) * 3
        x1, y1 = x0 + f * (Vx[k] - x0), y0 + f * (Vy[k] - y0)
    elif ln == "grazing":
        # nearly along an edge
        if poly:
            k = r.randint(0, len(Vx), n)
            j = (k + 1) % len(Vx)
            al = np.arctan2(Vy[j] - Vy[k], Vx[j] - Vx[k]) + 10 ** (-8 + 7 * r.rand(n)) * np.where(r.rand(n) < .8, -1, 1)
        else:
            al = np.arctan2(y0 / Y ** 2, x0 / X ** 2) + np.pi / 2 - 10 ** (-8 + 7 * r.rand(n))
        x1, y1 = x0 + d * np.cos(al), y0 + d * np.sin(al)
    else:
        x1, y1 = x0 + d * np.cos(th), y0 + d * np.sin(th)
    in0, m0 = gen.is_inside(c, x0, y0)
    in1, m1 = gen.is_inside(c, x1, y1)
    out1 = np.asarray(ch.is_outside(x1, y1))
    keep = in0 & (m0 > 1e-13) & ~in1 & (m1 > 1e-13 * S) & out1 & ~np.asarray(ch.is_outside(x0, y0))
    if not keep.any():
        return None
    x0, y0, x1, y1, m0 = x0[keep], y0[keep], x1[keep], y1[keep], m0[keep]
    n = len(x0)
    z0, z1 = r.randn(n), r.randn(n)
    args = [x0, y0, z0, x1, y1, z1]
    cp = [v.copy() for v in args]
    f = spec["resc"]
    with pye.TempDir():
        res = ch.impact_point_and_normal(*cp, resc_fac=f, flag_robust=spec["robust"])
    xi, yi, zi, Nx, Ny, seg = res
    for v, w in zip(args, cp):
        require(np.array_equal(v, w), "the displacements given by the caller were modified")
    require(all(np.shape(v) == (n,) for v in (xi, yi, Nx, Ny)), "result of the wrong size")
    require(np.all(np.isfinite(xi) & np.isfinite(yi) & np.isfinite(Nx) & np.isfinite(Ny)), "non-finite result")
    t, idx, nearv = gen.first_crossing(c, x0, y0, x1, y1)
    D = np.hypot(x1 - x0, y1 - y0)
    require(np.all(np.isfinite(t)), "internal: no crossing in the reference")
    # inside
    inn, mi = gen.is_inside(c, xi, yi)
    if f < 1 and (poly or spec["robust"]):
        require(np.all(inn | (mi < 1e-13 * S)), lambda: "impact point outside the chamber: %r" % (
            (xi[~inn][0], yi[~inn][0], x0[~inn][0], y0[~inn][0], x1[~inn][0], y1[~inn][0]),))
        if spec["robust"]:
            require(not np.any(ch.is_outside(xi, yi)), "impact point that the chamber itself reports outside")
    # on the displacement, at the right place
    tr = ((xi - x0) * (x1 - x0) + (yi - y0) * (y1 - y0)) / D ** 2
    off = np.abs((xi - x0) * (y1 - y0) - (yi - y0) * (x1 - x0)) / D
    tol = 1e-11 * S + 1e-13 * D
    far = m0 > 1e-7 * S
    if f == 1:
        # rounding decides on which side of the wall the point falls, and the robust correction moves it
        far &= not spec["robust"]
    if not poly and not spec["robust"]:
        far &= True
    # a grazing ray amplifies the rounding of the wall position
    if poly:
        ex = np.roll(Vx, -1) - Vx; ey = np.roll(Vy, -1) - Vy
        L = np.hypot(ex, ey)
        nx, ny = -ey / L, ex / L
        sina = np.abs((x1 - x0) * nx[idx] + (y1 - y0) * ny[idx]) / D
    else:
        xc, yc = x0 + t * (x1 - x0), y0 + t * (y1 - y0)
        gx, gy = xc / X ** 2, yc / Y ** 2
        g = np.hypot(gx, gy)
        sina = np.abs((x1 - x0) * gx + (y1 - y0) * gy) / D / g
    tol = tol + 1e-13 * S / np.maximum(sina, 1e-9) + 1e-13 * D
    if not poly:
        # closed form with fourth powers: relative accuracy of a quadratic with cancellation
        tol = tol + 1e-9 * S + 1e-11 * D + 1e-14 * (S / s) ** 2 * S ** 3 / D ** 2 / np.maximum(sina, 1e-9)
        far &= tol < 1e-2 * D
        if spec["robust"]:
            # where rounding may place the rescaled point outside, the robust correction moves it further in
            far &= (1 - f) * t * D * sina > tol
        touch = np.zeros(n, bool)
    else:
        # a path through a vertex may be taken to cross there or not
        touch = np.zeros(n, int)
        for k in range(len(Vx)):
            touch += gen.seg_dist(Vx[k], Vy[k], x0, y0, x1, y1) < 1e-10 * S
        touch = touch > (nearv <= 1e-9)
        far &= ~touch
        tol = np.where(nearv < 1e-7, tol + 1e-7 * S, tol)
        sg = np.clip(np.asarray(seg), 0, len(Vx) - 1)
        sina = np.minimum(sina, np.abs((x1 - x0) * nx[sg] + (y1 - y0) * ny[sg]) / D)
    far &= sina > 1e-5
    require(np.all(off[far] <= tol[far]), lambda: "impact point %g m off the displacement" % np.max(off[far]))
    err = np.abs(tr - f * t) * D
    good = err <= tol
    if not poly:
        # displacement tiny with respect to the distance from the centre: taken as no displacement
        good |= (D ** 2 / (x1 ** 2 + y1 ** 2) < 1.01e-8) & (np.abs(tr) * D <= tol)
    bad = far & ~good
    require(not bad.any(), lambda: "impact at fraction %r of the displacement, expected %r x %r (from %r to %r)" % (
        tr[bad][0], f, t[bad][0], (x0[bad][0], y0[bad][0]), (x1[bad][0], y1[bad][0])))
    # normal
    require(np.all(np.abs(np.hypot(Nx, Ny) - 1) < 1e-9), lambda: "normal of length %r" %
            np.hypot(Nx, Ny)[np.argmax(np.abs(np.hypot(Nx, Ny) - 1))])
    if poly:
        require(seg is not None and np.shape(seg) == (n,), "no segment reported")
        seg = np.asarray(seg)
        require(np.all((seg >= 0) & (seg < len(Vx))), "segment index outside the list of segments")
        require(np.all((np.abs(Nx - nx[seg]) < 1e-9) & (np.abs(Ny - ny[seg]) < 1e-9)),
                "normal is not the inward normal of the reported segment")
        # the reported segment is crossed first, or as early as another one (vertex)
        amb = (nearv < 1e-7) | touch | (sina < 1e-7) | ((m0 < 1e-7 * S))
        wrong = (seg != idx) & ~amb
        require(not wrong.any(), lambda: "segment %d reported, the displacement from %r to %r first crosses %d" % (
            seg[wrong][0], (x0[wrong][0], y0[wrong][0]), (x1[wrong][0], y1[wrong][0]), idx[wrong][0]))
        xc, yc = x0 + t * (x1 - x0), y0 + t * (y1 - y0)
        for k in np.where((seg != idx) & (sina > 1e-5) & ~touch)[0]:
            dd = gen.seg_dist(xc[k], yc[k], Vx[seg[k]], Vy[seg[k]], *[v[(seg[k] + 1) % len(Vx)] for v in (Vx, Vy)])
            require(dd < 1e-5 * S + 1e-12 * D[k] + 10 * m0[k], "segment %d is %g m away from the crossing" % (seg[k], dd))
        cmp_ = ~amb
    else:
        require(seg is None, "an ellipse reports segments")
        # perpendicular to the ellipse x/X = k through the impact point
        hx, hy = -xi / X ** 2, -yi / Y ** 2
        h = np.hypot(hx, hy)
        nz = h > 1e-9 / S
        require(np.all((np.abs(Nx - hx / np.where(nz, h, 1)) < 1e-7) | ~nz) and
                np.all((np.abs(Ny - hy / np.where(nz, h, 1)) < 1e-7) | ~nz), "normal not perpendicular to the ellipse / not inward")
        # interpolated longitudinal position
        zt = tr * z1 + (1 - tr) * z0
        require(np.all((np.abs(zi - zt) < 1e-6 * (1 + np.abs(z1 - z0)) + (np.abs(z1 - z0) * tol / D)) | ~far),
                "longitudinal position not interpolated along the displacement")
        cmp_ = far
    # independence of the batch
    k = spec["seed"] % n
    with pye.TempDir():
        one = ch.impact_point_and_normal(*[v[k:k + 1].copy() for v in args], resc_fac=f, flag_robust=spec["robust"])
    p = r.permutation(n)
    with pye.TempDir():
        per = ch.impact_point_and_normal(*[v[p].copy() for v in args], resc_fac=f, flag_robust=spec["robust"])
    for nm, a, b, d in zip(("x", "y", "z", "Nx", "Ny", "segment"), res, one, per):
        if a is not None:
            a, b, d = np.asarray(a), np.asarray(b), np.asarray(d)
            require(abs(a[k] - b[0]) <= 1e-12 * S * (nm in "xyz") + 1e-12, nm + ": different when the particle is processed alone")
            require(np.all(np.abs(a[p] - d) <= 1e-12 * S * (nm in "xyz") + 1e-12), nm + ": depends on the order of the batch")
    if (far & cmp_).any():
        return c["kind"]

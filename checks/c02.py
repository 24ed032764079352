"""C02: chamber containment against a winding-number reference, and refusal of malformed profiles."""
import numpy as np
from hypothesis import strategies as st

from vlib import pye, gen
from vlib.harness import Check, Violation, require

check = Check("C02", rule="containment: batch with points on both sides of the wall further from it than rounding; "
              "refusal: profile really malformed (or really well formed) by the reference",
              assumptions=["points closer to the wall than 1e-10 of the aperture are not compared",
                           "convexity is compared when the cross products are clearly signed"])

aper = gen.logfl(1e-4, 2.0)
chamb = gen.chambers(aper=aper)


def batch(c, spec, ch):
    r = gen.rng(spec["seed"])
    n = spec["n"]
    X, Y = (c["a"], c["b"]) if c["kind"] == "ellip" else [np.max(np.abs(v)) for v in gen.chamber_vertices(c)]
    k = spec["where"]
    if k == "box":
        x, y = (2.6 * r.rand(n) - 1.3) * X, (2.6 * r.rand(n) - 1.3) * Y
    elif k == "far":
        s = 10 ** (r.rand(n) * 8)
        t = r.rand(n) * 2 * np.pi
        x, y = s * X * np.cos(t), s * Y * np.sin(t)
    elif k == "wall":
        s = np.where(r.rand(n) < .5, 1, -1) * 10 ** (-9.5 + 7 * r.rand(n))
        if c["kind"] == "ellip":
            t = r.rand(n) * 2 * np.pi
            x, y = X * np.cos(t) * (1 + s), Y * np.sin(t) * (1 + s)
        else:
            Vx, Vy = gen.chamber_vertices(c)
            i = r.randint(0, len(Vx), n)
            j = (i + 1) % len(Vx)
            u = r.rand(n)
            nx, ny = -(Vy[j] - Vy[i]), Vx[j] - Vx[i]
            no = np.hypot(nx, ny)
            x = Vx[i] + u * (Vx[j] - Vx[i]) + s * min(X, Y) * nx / no
            y = Vy[i] + u * (Vy[j] - Vy[i]) + s * min(X, Y) * ny / no
    elif k == "corner":
        # same abscissa or ordinate as a vertex: the degenerate rays of a parity test
        if c["kind"] == "ellip":
            x, y = np.where(r.rand(n) < .5, 0.0, X * (2 * r.rand(n) - 1) * 1.2), np.zeros(n)
        else:
            Vx, Vy = gen.chamber_vertices(c)
            i = r.randint(0, len(Vx), n)
            m = r.rand(n) < .7
            x = np.where(m, (2.4 * r.rand(n) - 1.2) * X, Vx[i])
            y = np.where(m, Vy[i], (2.4 * r.rand(n) - 1.2) * Y)
    else:
        x, y = (2 * r.rand(n) - 1) * 1e-3 * X, (2 * r.rand(n) - 1) * 1e-3 * Y
        x[: n // 3] = 0.0
        y[: n // 2] = 0.0
    return x, y, X, Y


contain = st.fixed_dictionaries(dict(chamb=chamb, n=st.one_of(st.integers(0, 3), st.integers(4, 400)), seed=gen.seeds,
                                     where=st.sampled_from(["box", "box", "wall", "corner", "far", "centre"]),
                                     general=st.booleans()))


@check.sub("containment", contain, quick=15000, thorough=120000, shards=3, thorough_shards=8)
def contain_case(spec):
    c = spec["chamb"]
    if spec["general"] and c["kind"] not in ("ellip", "rect"):
        ch = pye.geom_impact_poly_fast_impact.polyg_cham_geom_object(gen.chamber_dict(c), False, flag_assume_convex=False)
    elif spec["general"] and c["kind"] == "rect":
        ch = gen.build_chamber(c, flag_assume_convex=False)
    else:
        ch = gen.build_chamber(c)
    x, y, X, Y = batch(c, spec, ch)
    x0, y0 = x.copy(), y.copy()
    out = np.asarray(ch.is_outside(x, y))
    require(out.shape == (len(x),) and out.dtype == bool, "is_outside returns %s of %s" % (out.shape, out.dtype))
    require(np.array_equal(x, x0) and np.array_equal(y, y0), "is_outside modifies its arguments")
    ins, marg = gen.is_inside(c, x, y)
    ok = marg > 1e-10 * max(X, Y) * np.maximum(1.0, np.hypot(x, y) / max(X, Y))
    bad = ok & (out == ins)
    require(not bad.any(), lambda: "point (%r, %r) is geometrically %s and is reported %s" % (
        x[bad][0], y[bad][0], "inside" if ins[bad][0] else "outside", "outside" if out[bad][0] else "inside"))
    if len(x):
        # independent of the batch
        i = spec["seed"] % len(x)
        one = np.asarray(ch.is_outside(x[i:i + 1].copy(), y[i:i + 1].copy()))
        require(one[0] == out[i], "a point is classified differently alone and in a batch")
        p = gen.rng(spec["seed"] + 1).permutation(len(x))
        require(np.array_equal(np.asarray(ch.is_outside(x[p], y[p])), out[p]), "classification depends on the order")
    # the description of the wall
    require(abs(ch.x_aper - X) <= 1e-12 * X and abs(ch.y_aper - Y) <= 1e-12 * Y, "half-apertures %r, %r instead of %r, %r"
            % (ch.x_aper, ch.y_aper, X, Y))
    if c["kind"] == "ellip":
        A = np.pi * X * Y
        require(ch.chamb_type == "ellip" and ch.is_convex(), "ellipse not described as a convex ellipse")
    else:
        Vx, Vy = gen.chamber_vertices(c)
        A = 0.5 * np.sum(Vx * np.roll(Vy, -1) - Vy * np.roll(Vx, -1))
        require(np.allclose(ch.Vx, np.append(Vx, Vx[0]), rtol=0, atol=0) and
                np.allclose(ch.Vy, np.append(Vy, Vy[0]), rtol=0, atol=0), "vertex list is not the closed profile")
        require(ch.N_vert == len(Vx) and ch.N_edg == len(Vx), "number of vertices or edges")
        dx, dy = np.diff(ch.Vx), np.diff(ch.Vy)
        L = np.hypot(dx, dy)
        require(gen.close(ch.L_edg, L, 1e-12), "edge lengths")
        require(np.all(np.abs(ch.Nx * dx + ch.Ny * dy) <= 1e-12 * L) and
                np.all(np.abs(np.hypot(ch.Nx, ch.Ny) - 1) < 1e-12) and np.all(dx * ch.Ny - dy * ch.Nx > 0),
                "edge normals are not inward unit normals")
        require(ch.chamb_type == ("rect" if c["kind"] == "rect" else "polyg"), "chamb_type %r" % ch.chamb_type)
        cr, s = cross(Vx, Vy)
        if np.min(np.abs(cr)) > 1e-9:
            require(ch.is_convex() == bool(np.all(cr > 0)), "is_convex() is wrong")
    require(abs(ch.area - A) <= 1e-12 * A, "area %r instead of %r" % (ch.area, A))
    return c["kind"] if (ok & ins).any() and (ok & ~ins).any() else None


def cross(Vx, Vy):
    """Sines of the turning angles."""
    dx, dy = np.roll(Vx, -1) - Vx, np.roll(Vy, -1) - Vy
    ex, ey = np.roll(dx, -1), np.roll(dy, -1)
    return (dx * ey - dy * ex) / (np.hypot(dx, dy) * np.hypot(ex, ey)), np.hypot(dx, dy)


malformed = st.fixed_dictionaries(dict(
    chamb=gen.chambers(("rect", "convex", "star", "template"), aper=aper), roll=st.integers(0, 30),
    how=st.sampled_from(["clockwise", "dent", "repeat", "none"]), k=st.integers(0, 100), f=gen.fl(0.02, 0.9),
    convex=st.booleans(), matfile=st.booleans(), cls=st.sampled_from(["chamber", "chamber", "photoemission"])))


@check.sub("refusal", malformed, quick=6000, thorough=40000, thorough_shards=8)
def refuse_case(spec):
    mod = pye.geom_impact_poly_fast_impact
    d = gen.chamber_dict(spec["chamb"])
    Vx, Vy = np.roll(d["Vx"], spec["roll"]), np.roll(d["Vy"], spec["roll"])
    n = len(Vx)
    k = spec["k"] % n
    how = spec["how"]
    if how == "clockwise":
        Vx, Vy = Vx[::-1].copy(), Vy[::-1].copy()
    elif how == "repeat":
        Vx, Vy = np.insert(Vx, k, Vx[k]), np.insert(Vy, k, Vy[k])
        if spec["roll"] % 3 == 0:      # closed by hand
            Vx, Vy = np.append(np.roll(d["Vx"], 1), np.roll(d["Vx"], 1)[0]), np.append(np.roll(d["Vy"], 1), np.roll(d["Vy"], 1)[0])
    elif how == "dent":
        if spec["chamb"]["kind"] not in ("rect", "convex"):
            return None
        # push the midpoint of an edge towards the origin
        j = (k + 1) % n
        mx, my = (Vx[k] + Vx[j]) / 2 * (1 - spec["f"]), (Vy[k] + Vy[j]) / 2 * (1 - spec["f"])
        Vx, Vy = np.insert(Vx, k + 1, mx), np.insert(Vy, k + 1, my)
        cx, cy = gen.inscribed(Vx, Vy)
        d.update(x_sem_ellip_insc=cx, y_sem_ellip_insc=cy)
        A = 0.5 * np.sum(Vx * np.roll(Vy, -1) - Vy * np.roll(Vx, -1))
        if A <= 0:
            return None
    d.update(Vx=Vx, Vy=Vy)
    cr, L = cross(Vx, Vy) if how != "repeat" else (np.ones(1), np.ones(1))
    convex = bool(np.all(cr > -1e-15))
    if how != "repeat" and np.any((np.abs(cr) < 1e-6) & (cr != 0)):
        return None
    if how != "repeat" and L.min() < 2e-9:
        return None
    photo = spec["cls"] == "photoemission"
    if photo:
        d["phem_cdf"] = np.linspace(0, 1, len(Vx) + 1)[1:]
        d["phem_cdf"][-1] = 1.0
        must_refuse = how in ("clockwise", "repeat")
        if how == "none" and spec["k"] % 3:
            if spec["k"] % 3 == 1:
                d["phem_cdf"][-1] = 0.9
            else:
                d["phem_cdf"] = d["phem_cdf"][::-1].copy()
                d["phem_cdf"][-1] = 1.0
            must_refuse = True
    else:
        must_refuse = how in ("clockwise", "repeat") or (spec["convex"] and not convex)
    arg = d
    with pye.TempDir():
        if spec["matfile"]:
            import scipy.io as sio
            sio.savemat("prof.mat", d, oned_as="row")
            arg = "prof.mat"
        try:
            if photo:
                ch = mod.polyg_cham_photoemission(arg)
            else:
                ch = mod.polyg_cham_geom_object(arg, False, flag_assume_convex=spec["convex"])
            refused = None
        except mod.PyECLOUD_ChamberException as e:
            refused = str(e)
    if must_refuse:
        require(refused is not None, "a malformed profile (%s, convex assumed %s) is accepted" % (how, spec["convex"]))
        return how + ("-photo" if photo else "")
    require(refused is None, lambda: "a well-formed profile (%s, convex %s, convex assumed %s) is refused: %s" %
            (how, convex, spec["convex"], refused))
    # and classifies points
    r = gen.rng(spec["k"])
    X, Y = np.max(np.abs(Vx)), np.max(np.abs(Vy))
    x, y = (2.4 * r.rand(100) - 1.2) * X, (2.4 * r.rand(100) - 1.2) * Y
    ins, m = gen.inside_polygon(x, y, Vx, Vy), gen.wall_dist(x, y, Vx, Vy)
    out = np.asarray(ch.is_outside(x, y))
    require(np.all((out != ins) | (m < 1e-10 * max(X, Y))), "accepted profile classifies points wrongly")
    return "accepted"


subset = st.fixed_dictionaries(dict(a=aper, b=aper, seed=gen.seeds, nins=st.integers(0, 5), nout=st.integers(0, 5),
                                    move=st.sampled_from(["no", "no", "mine", "other"])))


@check.sub("same-outline", subset, quick=1500, thorough=10000)
def subset_case(spec):
    """vertexes_are_subset: two chambers describe the same wall iff all vertices of each lie on the edges of the other."""
    mod = pye.geom_impact_poly_fast_impact
    r = gen.rng(spec["seed"])
    a, b = spec["a"], spec["b"]

    def outline(n, bump):
        xs = list(zip([a, -a, -a, a], [b, b, -b, -b]))
        out = []
        for i in range(4):
            p, q = np.array(xs[i]), np.array(xs[(i + 1) % 4])
            out.append(p)
            for t in np.sort(0.1 + 0.8 * r.rand(r.randint(0, n + 1))):
                m = p + t * (q - p)
                m = np.where(p == q, p, m)
                if not out or np.hypot(*(m - out[-1])) > 1e-7 * a:
                    out.append(m)
        out = np.array(out)
        if bump:
            i = r.randint(len(out))
            out[i] *= 1.05
        return dict(Vx=out[:, 0], Vy=out[:, 1], x_sem_ellip_insc=.9 * a, y_sem_ellip_insc=.9 * b)
    d1, d2 = outline(spec["nins"], spec["move"] == "mine"), outline(spec["nout"], spec["move"] == "other")
    c1 = mod.polyg_cham_geom_object(d1, False, flag_assume_convex=False)
    c2 = mod.polyg_cham_geom_object(d2, False, flag_assume_convex=False)
    exp = spec["move"] == "no"
    require(bool(c1.vertexes_are_subset(c2)) == exp, "same outline reported %s, expected %s" % (not exp, exp))
    require(bool(c2.vertexes_are_subset(c1)) == exp, "same outline (reversed) reported %s, expected %s" % (not exp, exp))
    return spec["move"]

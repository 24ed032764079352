"""Generators shared by the checks. Every strategy yields plain JSON data; build_* turn it into objects of the code."""
import numpy as np
from hypothesis import strategies as st

E_CH = 1.602176634e-19
M_E = 9.1093837015e-31
C_L = 299792458.0


def rng(seed):
    return np.random.RandomState(seed & 0x7FFFFFFF)


seeds = st.integers(0, 2 ** 31 - 1)


def fl(lo, hi):
    return st.floats(lo, hi, allow_nan=False, allow_infinity=False, width=64)


def logfl(lo, hi):
    """Floats spread over orders of magnitude."""
    return st.floats(np.log10(lo), np.log10(hi), allow_nan=False).map(lambda e: float(min(max(10.0 ** e, lo), hi)))


# ------------------------------------------------------------------ chambers

def convex_polygon(seed, n, ax, ay, rot=0.0):
    """Counter-clockwise convex polygon around the origin: vertices on an ellipse, no gap of pi or more."""
    r = rng(seed)
    while True:
        g = 0.15 + r.rand(n)
        g = g / g.sum() * 2 * np.pi
        if g.max() < 0.85 * np.pi and g.min() > 0.02:
            break
    t = np.cumsum(g) + r.rand() * 2 * np.pi
    x, y = ax * np.cos(t), ay * np.sin(t)
    if rot:
        x, y = x * np.cos(rot) - y * np.sin(rot), x * np.sin(rot) + y * np.cos(rot)
    return x, y


def star_polygon(seed, n, ax, ay):
    """Counter-clockwise star-shaped (generally non-convex) polygon around the origin."""
    r = rng(seed)
    while True:
        g = 0.3 + r.rand(n)
        g = g / g.sum() * 2 * np.pi
        if g.max() < 0.8 * np.pi:
            break
    t = np.cumsum(g) + r.rand() * 2 * np.pi
    rad = 0.3 + 0.7 * r.rand(n)
    return ax * rad * np.cos(t), ay * rad * np.sin(t)


def template_polygon(seed, ax, ay):
    """Re-entrant shapes that are not star shaped: L, T, U, plus, hook."""
    r = rng(seed)
    k = r.randint(5)
    u, v, w = 0.15 + 0.2 * r.rand(3)
    if k == 0:      # L
        p = [(-u, -v), (1, -v), (1, w), (u, w), (u, 1), (-u, 1)]
    elif k == 1:    # T
        p = [(-u, -1), (u, -1), (u, v * .5), (1, v * .5), (1, v + w), (-1, v + w), (-1, v * .5), (-u, v * .5)]
    elif k == 2:    # U, the origin lies in the bottom bar
        p = [(-1, -v), (1, -v), (1, 1), (1 - u, 1), (1 - u, w), (-1 + u, w), (-1 + u, 1), (-1, 1)]
    elif k == 3:    # plus
        p = [(u, -1), (u, -v), (1, -v), (1, v), (u, v), (u, 1), (-u, 1), (-u, v), (-1, v), (-1, -v), (-u, -v), (-u, -1)]
    else:           # hook
        p = [(-u, -v), (1, -v), (1, 1), (0.1, 1), (0.1, 1 - w), (1 - w, 1 - w), (1 - w, v), (-u, v)]
    p = np.array(p, float)
    s = r.randint(len(p))
    p = np.roll(p, s, axis=0)
    return p[:, 0] * ax, p[:, 1] * ay


def seg_dist(px, py, ax, ay, bx, by):
    dx, dy = bx - ax, by - ay
    t = np.clip(((px - ax) * dx + (py - ay) * dy) / (dx * dx + dy * dy), 0, 1)
    return np.hypot(px - ax - t * dx, py - ay - t * dy)


def wall_dist(px, py, Vx, Vy):
    """Distance of points to the closed polyline."""
    px, py = np.atleast_1d(px).astype(float), np.atleast_1d(py).astype(float)
    d = np.full(px.shape, np.inf)
    for i in range(len(Vx)):
        j = (i + 1) % len(Vx)
        d = np.minimum(d, seg_dist(px, py, Vx[i], Vy[i], Vx[j], Vy[j]))
    return d


def inside_polygon(px, py, Vx, Vy):
    """Winding number, independent of the crossing-parity algorithm of the code."""
    px, py = np.atleast_1d(px).astype(float), np.atleast_1d(py).astype(float)
    w = np.zeros(px.shape)
    n = len(Vx)
    for i in range(n):
        j = (i + 1) % n
        ux, uy, vx, vy = Vx[i] - px, Vy[i] - py, Vx[j] - px, Vy[j] - py
        w += np.arctan2(ux * vy - uy * vx, ux * vx + uy * vy)
    return np.abs(w) > np.pi


def inscribed(Vx, Vy, ratio=1.0):
    """Semi-axes of an ellipse centred in the origin contained in the polygon."""
    m = float(wall_dist(0.0, 0.0, Vx, Vy / 1.0)[0])
    # scale y so that an ellipse of the given ratio becomes a circle
    m = float(wall_dist(0.0, 0.0, np.asarray(Vx), np.asarray(Vy) / ratio)[0])
    return 0.97 * m, 0.97 * m * ratio


def chamber_vertices(c):
    k = c["kind"]
    if k == "rect":
        a, b = c["a"], c["b"]
        return np.array([a, -a, -a, a]), np.array([b, b, -b, -b])
    if k == "convex":
        return convex_polygon(c["seed"], c["n"], c["a"], c["b"], c.get("rot", 0.0))
    if k == "star":
        return star_polygon(c["seed"], c["n"], c["a"], c["b"])
    if k == "template":
        return template_polygon(c["seed"], c["a"], c["b"])
    raise ValueError(k)


def chamber_dict(c):
    Vx, Vy = chamber_vertices(c)
    cx, cy = inscribed(Vx, Vy, c.get("ratio", 1.0))
    return dict(Vx=Vx, Vy=Vy, x_sem_ellip_insc=cx, y_sem_ellip_insc=cy)


def build_chamber(c, **kw):
    from . import pye
    k = c["kind"]
    if k == "ellip":
        return pye.geom_impact_ellip.ellip_cham_geom_object(c["a"], c["b"], flag_verbose_file=False)
    if k == "rect":
        return pye.geom_impact_rect_fast_impact.rect_cham_geom_object(c["a"], c["b"], False, **kw)
    d = chamber_dict(c)
    conv = k == "convex"
    return pye.geom_impact_poly_fast_impact.polyg_cham_geom_object(d, False, flag_assume_convex=conv, **kw)


def is_inside(c, x, y):
    """Reference containment (strictly inside), and the distance-like margin to the wall."""
    if c["kind"] == "ellip":
        q = (x / c["a"]) ** 2 + (y / c["b"]) ** 2
        return q < 1, np.abs(np.sqrt(q) - 1) * min(c["a"], c["b"])
    Vx, Vy = chamber_vertices(c)
    return inside_polygon(x, y, Vx, Vy), wall_dist(x, y, Vx, Vy)


def first_crossing(c, x0, y0, x1, y1):
    """t of the first crossing, index of the edge, distance of the crossing to the nearest vertex (relative)."""
    n = len(x0)
    dx, dy = x1 - x0, y1 - y0
    if c["kind"] == "ellip":
        a, b = c["a"], c["b"]
        A = (dx / a) ** 2 + (dy / b) ** 2
        B = (x0 * dx / a ** 2 + y0 * dy / b ** 2)
        C = (x0 / a) ** 2 + (y0 / b) ** 2 - 1
        s = np.sqrt(np.maximum(B * B - A * C, 0))
        t = np.where(B > 0, -C / (B + s), (-B + s) / A)
        return t, None, np.full(n, np.inf)
    Vx, Vy = chamber_vertices(c)
    m = len(Vx)
    best, idx = np.full(n, np.inf), np.full(n, -1)
    ulast = np.zeros(n)
    for i in range(m):
        j = (i + 1) % m
        ex, ey = Vx[j] - Vx[i], Vy[j] - Vy[i]
        den = dx * ey - dy * ex
        with np.errstate(all="ignore"):
            t = ((Vx[i] - x0) * ey - (Vy[i] - y0) * ex) / den
            u = ((Vx[i] - x0) * dy - (Vy[i] - y0) * dx) / den
        ok = (den != 0) & (t >= 0) & (u >= -1e-13) & (u <= 1 + 1e-13) & (t < best)
        best = np.where(ok, t, best); idx = np.where(ok, i, idx); ulast = np.where(ok, u, ulast)
    return best, idx, np.minimum(np.abs(ulast), np.abs(1 - ulast))


apertures = logfl(5e-3, 8e-2)


def chambers(kinds=("ellip", "rect", "convex", "star", "template"), aper=apertures):
    opts = []
    if "ellip" in kinds:
        opts.append(st.fixed_dictionaries(dict(kind=st.just("ellip"), a=aper, b=aper)))
    if "rect" in kinds:
        opts.append(st.fixed_dictionaries(dict(kind=st.just("rect"), a=aper, b=aper)))
    if "convex" in kinds:
        opts.append(st.fixed_dictionaries(dict(kind=st.just("convex"), a=aper, b=aper, seed=seeds,
                                               n=st.integers(3, 24), rot=fl(0, 3.1), ratio=st.sampled_from([1.0, .6]))))
    if "star" in kinds:
        opts.append(st.fixed_dictionaries(dict(kind=st.just("star"), a=aper, b=aper, seed=seeds,
                                               n=st.integers(4, 24), ratio=st.sampled_from([1.0, .6]))))
    if "template" in kinds:
        opts.append(st.fixed_dictionaries(dict(kind=st.just("template"), a=aper, b=aper, seed=seeds,
                                               ratio=st.sampled_from([1.0, .6]))))
    return st.one_of(opts)


def points_inside(c, n, r, frac=1.0):
    """n points strictly inside (reference containment), inside the frac-scaled chamber."""
    xs, ys = [], []
    if c["kind"] == "ellip":
        X, Y = c["a"], c["b"]
    else:
        Vx, Vy = chamber_vertices(c)
        X, Y = np.max(np.abs(Vx)), np.max(np.abs(Vy))
    got = 0
    while got < n:
        x = (2 * r.rand(2 * n + 10) - 1) * X
        y = (2 * r.rand(2 * n + 10) - 1) * Y
        ins, m = is_inside(c, x / frac, y / frac)
        k = ins & (m > 1e-6 * min(X, Y))
        xs.append(x[k]); ys.append(y[k])
        got += int(k.sum())
    return np.concatenate(xs + [np.zeros(0)])[:n], np.concatenate(ys + [np.zeros(0)])[:n]


def binom_ok(k, n, p, sig=7.0):
    """|k - n p| within sig standard deviations (plus one)."""
    return abs(k - n * p) <= sig * np.sqrt(max(n * p * (1 - p), 0.0)) + 1.5


def close(a, b, rtol, atol=0.0):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= atol + rtol * np.maximum(np.abs(a), np.abs(b))))

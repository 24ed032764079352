"""C09: the compiled deposition, interpolation, histogram and segment kernels against direct sums."""
import numpy as np
from hypothesis import strategies as st

from vlib import pye, gen
from vlib.harness import Check, require

check = Check("C09", rule="at least one entry on the grid (or a guard cell that must stay untouched)",
              assumptions=["an entry beyond the last grid line, or on it, is not on the grid: no charge deposited, no field",
                           "histogram entries at or beyond the last grid point are counted in the last, below the first in the first"])

grid = dict(seed=gen.seeds, nx=st.integers(2, 25), ny=st.integers(2, 25), n=st.one_of(st.integers(1, 3), st.integers(1, 120)), bx=gen.fl(-3, 3),
            by=gen.fl(-3, 3), dx=gen.logfl(1e-6, 10), dy=gen.logfl(1e-6, 10), order=st.sampled_from("CF"), where=st.sampled_from(["in", "in", "nodes", "lines", "around"]),
            wlog=gen.fl(-5, 15), sign=st.booleans())


def coords(r, n, b, d, N, where):
    """Grid coordinates f (0..N-1) and positions; 'around' also leaves the grid."""
    if where == "around":
        f = (N + 3) * r.rand(n) - 2
        big = r.rand(n) < 0.1
        f = np.where(big, f * 1e6, f)
    elif where == "nodes":
        f = np.floor((N - 1) * r.rand(n))
    elif where == "lines":
        f = np.where(r.rand(n) < 0.5, np.floor((N - 1) * r.rand(n)), (N - 1) * r.rand(n))
    else:
        f = (N - 1) * r.rand(n)
    x = b + d * f
    return x


def weights(x, b, d, N):
    """Cell and linear weight; judged=False within rounding of the border of the grid."""
    f = (x - b) / d
    eps = 1e-9 * (1 + abs(b) / d)
    i = np.clip(np.floor(f), 0, N - 2)
    on = (f >= 0) & (f < N - 1)
    judged = (np.abs(f) > eps) & (np.abs(f - (N - 1)) > eps)
    return i.astype(int), f - i, on, judged, eps


def dense(x, y, spec):
    """Interpolation matrix of shape (n, nx, ny)."""
    i, u, onx, jx, ex = weights(x, spec["bx"], spec["dx"], spec["nx"])
    j, v, ony, jy, ey = weights(y, spec["by"], spec["dy"], spec["ny"])
    on = onx & ony
    W = np.zeros((len(x), spec["nx"], spec["ny"]))
    p = np.arange(len(x))
    for di, wu in ((0, 1 - u), (1, u)):
        for dj, wv in ((0, 1 - v), (1, v)):
            W[p, i + di, j + dj] += np.where(on, wu * wv, 0.0)
    return W, on, (jx | (np.abs((x - spec["bx"]) / spec["dx"]) > 1e8)) & jy, ex + ey


@check.sub("deposit", st.fixed_dictionaries(grid), quick=6000, thorough=40000, shards=2)
def deposit(spec):
    r = gen.rng(spec["seed"])
    nx, ny, D = spec["nx"], spec["ny"], spec["dx"]
    spec = dict(spec, dy=D)
    n = spec["n"]
    x = coords(r, n, spec["bx"], D, nx, spec["where"])
    y = coords(r, n, spec["by"], D, ny, spec["where"])
    W, on, judged, eps = dense(x, y, spec)
    x, y, W, on = x[judged], y[judged], W[judged], on[judged]
    if not len(x):
        return None
    w = 10 ** (spec["wlog"] * r.rand(len(x)))
    if spec["sign"]:
        w = w * np.where(r.rand(len(x)) < 0.5, -1, 1)
    rho = pye.rhocompute.compute_sc_rho(x.copy(), y.copy(), w.copy(), spec["bx"], spec["by"], D, nx, ny)
    A = np.abs(w[on]).sum() if on.any() else 0.0
    tol = 1e-9 * A + 20 * eps * A
    require(rho.shape == (nx, ny) and np.isfinite(rho).all(), "shape or non-finite density")
    require(np.abs(rho - (w[:, None, None] * W).sum(0)).max() <= tol, "deposited charge differs from linear weighting")
    require(abs(rho.sum() - w[on].sum()) <= tol, "total charge not conserved")
    xg, yg = spec["bx"] + D * np.arange(nx), spec["by"] + D * np.arange(ny)
    L = max(np.abs(xg).max(), np.abs(yg).max())
    require(abs((rho.sum(1) * xg).sum() - (w * x)[on].sum()) <= tol * L + tol * D and
            abs((rho.sum(0) * yg).sum() - (w * y)[on].sum()) <= tol * L + tol * D, "dipole moment not conserved")
    return spec["where"] if on.any() else None


@check.sub("interpolate", st.fixed_dictionaries(grid), quick=6000, thorough=40000, shards=2)
def interpolate(spec):
    r = gen.rng(spec["seed"])
    nx, ny, n = spec["nx"], spec["ny"], spec["n"]
    x = coords(r, n, spec["bx"], spec["dx"], nx, spec["where"])
    y = coords(r, n, spec["by"], spec["dy"], ny, spec["where"])
    W, on, judged, eps = dense(x, y, spec)
    x, y, W, on = x[judged], y[judged], W[judged], on[judged]
    if not len(x):
        return None
    F = pye.int_field_for.int_field
    arr = np.asfortranarray if spec["order"] == "F" else np.ascontiguousarray
    A, B = arr(10 ** (spec["wlog"]) * r.randn(nx, ny)), arr(r.randn(nx, ny))
    a, b = F(x.copy(), y.copy(), spec["bx"], spec["by"], spec["dx"], spec["dy"], A, B)
    require(len(a) == len(x) == len(b), "length of the interpolated field")
    tol = 1e-11 + 20 * eps
    ra, rb = (W * A).sum((1, 2)), (W * B).sum((1, 2))
    require((np.abs(a - ra) <= tol * np.abs(A).max()).all() and (np.abs(b - rb) <= tol * np.abs(B).max()).all(), "interpolated field differs from linear weighting")
    # exact for fields bilinear in the coordinates
    c = r.randn(4)
    gx, gy = np.meshgrid(np.arange(nx), np.arange(ny), indexing="ij")
    lin = c[0] + c[1] * gx + c[2] * gy + c[3] * gx * gy
    fx, fy = (x - spec["bx"]) / spec["dx"], (y - spec["by"]) / spec["dy"]
    a, b = F(x.copy(), y.copy(), spec["bx"], spec["by"], spec["dx"], spec["dy"], arr(lin), arr(-lin))
    want = c[0] + c[1] * fx + c[2] * fy + c[3] * fx * fy
    require((np.abs(a - want)[on] <= 100 * tol * np.abs(lin).max()).all(), "bilinear field not reproduced exactly")
    require(np.array_equal(a[on], -b[on]), "the two field components are treated differently")
    # the same weights as the deposition
    if len(x):
        s2 = dict(spec, dy=spec["dx"])
        y2 = spec["by"] + (y - spec["by"]) / spec["dy"] * spec["dx"]
        W2, on2, j2, e2 = dense(x, y2, s2)
        w = 1 + r.rand(len(x))
        if j2.all():
            rho = pye.rhocompute.compute_sc_rho(x.copy(), y2.copy(), w, spec["bx"], spec["by"], spec["dx"], nx, ny)
            e, _ = F(x.copy(), y2.copy(), spec["bx"], spec["by"], spec["dx"], spec["dx"], arr(B), arr(B))
            require(abs((rho * B).sum() - (w * e).sum()) <= (1e-10 + 50 * e2) * (w.sum() + 1) * (np.abs(B).max()), "deposition and interpolation use different weights")
    # all nodes at once
    if spec["bx"] == 0 or spec["where"] == "nodes":
        X, Y = gx[:-1, :-1].ravel() * spec["dx"], gy[:-1, :-1].ravel() * spec["dy"]
        a, b = F(X + 1e-12 * spec["dx"], Y + 1e-12 * spec["dy"], 0.0, 0.0, spec["dx"], spec["dy"], A, B)
        require(np.abs(a - A[:-1, :-1].ravel()).max() <= 1e-10 * np.abs(A).max() and np.abs(b - B[:-1, :-1].ravel()).max() <= 1e-10 * np.abs(B).max(),
                "node values not returned at the nodes")
    return spec["where"] if on.any() else None


@check.sub("histogram", st.fixed_dictionaries(grid), quick=6000, thorough=40000)
def histogram(spec):
    r = gen.rng(spec["seed"])
    N, n, b, d = spec["nx"], spec["n"], spec["bx"], spec["dx"]
    x = coords(r, n, b, d, N, spec["where"])
    i, u, on, judged, eps = weights(x, b, d, N)
    w = 10 ** (spec["wlog"] * r.rand(n))
    G = 5
    buf = 1.0 + r.rand(N + 2 * G)
    hist = buf[G:G + N]
    start = buf.copy()
    k = min(n, r.randint(1, 4))
    for part in range(k):          # accumulates over calls
        pye.hist_for.compute_hist(x[part::k].copy(), w[part::k].copy(), b, d, hist)
    add = hist - start[G:G + N]
    ref = np.zeros(N)
    f = (x - b) / d
    np.add.at(ref, i[on], (w * (1 - u))[on])
    np.add.at(ref, i[on] + 1, (w * u)[on])
    ref[-1] += w[f >= N - 1].sum()
    ref[0] += w[f < 0].sum()
    A = w.sum() + 1
    require(np.array_equal(buf[:G], start[:G]) and np.array_equal(buf[G + N:], start[G + N:]), "wrote outside the histogram")
    tol = (1e-9 + 20 * eps) * A
    require(abs(add.sum() - w.sum()) <= tol, "total weight of the histogram")
    require(np.abs(add - ref).max() <= tol, "histogram bins")
    return spec["where"] if n else None


@check.sub("segments", st.fixed_dictionaries(dict(seed=gen.seeds, N=st.integers(1, 30), n=st.integers(1, 100), out=st.booleans())), quick=2500, thorough=10000)
def segments(spec):
    r = gen.rng(spec["seed"])
    N, n, G = spec["N"], spec["n"], 5
    i = r.randint(-3, N + 4, n) if spec["out"] else r.randint(0, N, n)
    w = r.randn(n) * 10 ** (6 * r.rand(n))
    buf = r.rand(N + 2 * G)
    start = buf.copy()
    pye.seg_impact.update_seg_impact(i.astype(np.int32), w.copy(), buf[G:G + N])
    ref = start.copy()
    ok = (i >= 0) & (i < N)
    np.add.at(ref, G + i[ok], w[ok])
    require(np.array_equal(buf[:G], start[:G]) and np.array_equal(buf[G + N:], start[G + N:]), "wrote outside the segment table")
    require(np.abs(buf - ref).max() <= 1e-11 * (np.abs(w).sum() + 1), "segment sums")
    return "seg" if n else None


@check.sub("sum", st.fixed_dictionaries(dict(seed=gen.seeds, n=st.integers(0, 300))), quick=1000, thorough=3000)
def total(spec):
    x = gen.rng(spec["seed"]).randn(spec["n"])
    s = pye.vectsum.vectsum(x) if spec["n"] else 0.0
    require(abs(s - x.sum()) <= 1e-12 * (np.abs(x).sum() + 1), "vectsum")
    return "sum" if spec["n"] else None

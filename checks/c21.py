"""C21: frozen clouds (Transverse_Efield_map) against the clouds they replace."""
import random

import numpy as np
from hypothesis import strategies as st

from checks import c20
from vlib import buildup as bu, gen, ht, pye
from vlib.harness import Check, require

fl, logfl = gen.fl, gen.logfl

check = Check("C21", rule="a case is non-trivial when a recorded or given field kicked two or more particles in at least one slice",
              assumptions=["bunches and slicers are those of the installed PyHEADTAIL", "the map interpolates bilinearly between the nodes; live clouds leave nodes outside of the chamber out, so live and frozen kicks "
                           "are compared where the four nodes around a particle are inside", "slices that do not interact are not longer than the time step (longer ones leave several records)"])


def frozen(c, p, sel, F, ref, k=True, cx=0.0, cy=0.0):
    """Change of the slopes by the nodal field F of the particles sel of p (before the kick), and their cells being interior."""
    ox, oy = ht.offsets(c)
    f = ht.fact(p, c["L"])
    x, y = p.x[sel] - cx + ox, p.y[sel] - cy + oy
    ex, _ = ht.bilinear(ref.xg, ref.yg, F[0], x, y)
    ey, _ = ht.bilinear(ref.xg, ref.yg, F[1], x, y)
    return f * ex * (c["ex"] is not False), f * ey * (c["ey"] is not False)


def interior(ref, x, y):
    """All four nodes around the points are inside the chamber."""
    p = ref.sc.PyPICobj
    mask = np.array(p.flag_inside_n_mat, bool)
    i = np.floor((x - ref.xg[0]) / (ref.xg[1] - ref.xg[0])).astype(int)
    j = np.floor((y - ref.yg[0]) / (ref.yg[1] - ref.yg[0])).astype(int)
    ok = (i >= 0) & (j >= 0) & (i < len(ref.xg) - 1) & (j < len(ref.yg) - 1)
    i, j = np.clip(i, 0, len(ref.xg) - 2), np.clip(j, 0, len(ref.yg) - 2)
    return ok & mask[i, j] & mask[i + 1, j] & mask[i, j + 1] & mask[i + 1, j + 1]


def members(p, sl):
    """Particle numbers of every slice, tail first, and of what is outside of the slices."""
    random.seed(0)
    l = p.extract_slices(sl)
    cut = [w for w in l if isinstance(w.slice_info, str)]
    l = [w for w in l if not isinstance(w.slice_info, str)]
    p.clean_slices()
    return l, cut


def by_id(p):
    return {int(i): (a, b) for i, a, b in zip(p.id, p.xp, p.yp)}


def judge(p0, got, sl, c, maps, ref, what, wide):
    """p0: bunch before; got: id -> slopes after; maps: nodal fields of the slices, tail first."""
    l, cut = members(p0, sl)
    require(len(l) == len(maps), lambda: "internal: %d slices, %d maps" % (len(l), len(maps)))
    big = max(np.abs(F).max() for F in maps) * abs(ht.fact(p0, c["L"])) + 1e-300
    n = 0
    for k, w in enumerate(l):
        if w.macroparticlenumber == 0:
            continue
        kx, ky = frozen(c, w, slice(None), maps[k], ref)
        g = np.array([got[int(i)] for i in w.id])
        for name, have, want, old in (("xp", g[:, 0], kx, w.xp), ("yp", g[:, 1], ky, w.yp)):
            d = np.abs(have - old - want)
            require(np.all(d <= 1e-8 * big + 4e-16 * np.abs(old)), lambda: "%s: kick %s in slice %d of %d is not the one of its field: off by %.3g of the largest" % (what, name, k, len(l), d.max() / big))
        if w.macroparticlenumber >= 2 and (np.abs(kx) + np.abs(ky)).max() > 1e-6 * big:
            n += 1
    for w in cut:
        for i, a, b in zip(w.id, w.xp, w.yp):
            require(got[int(i)] == (a, b), what + ": a particle outside of the slices was kicked")
    return n


replay_spec = st.tuples(c20.spec, st.fixed_dictionaries(dict(mode=st.booleans(), turns=st.integers(1, 3), delete=st.booleans(), seed2=gen.seeds, f2=fl(0.3, 1.6), early=st.booleans()))).map(lambda t: dict(t[0], **t[1]))


@check.sub("replay", replay_spec, quick=80, thorough=5000, shards=4, thorough_shards=8)
def replay(s):
    """A cloud frozen during one passage kicks like the live one, on the same and on other bunches, at every later passage."""
    c, p, sl, dt = c20.setup(s)
    ox, oy = ht.offsets(c)
    with pye.TempDir():
        cfg = ht.config(c, dt)
        np.random.seed(c["seed"] % 2 ** 31)
        ec = ht.ecloud(c, cfg, dt, sl, s["mode"])
        np.random.seed(c["seed"] % 2 ** 31)
        es = ht.ecloud(c, cfg, dt, sl, True)
        ref = ht.Reference(c, cfg)
        # live passage, watched
        c20.reseed(es, s)
        q = ht.bunch(s["b"], c["ch"])
        l, cut = members(q, sl)
        maps = []
        live = {}
        for w in l[::-1]:
            es.track(w)
            maps.append(np.array([es.spacech_ele.efx, es.spacech_ele.efy]))
            live.update(by_id(w))
            if es.cloudsim.cloud_list[0].MP_e.N_mp > 8000:
                return
        maps = maps[::-1]
        for w in cut:
            live.update(by_id(w))
        # the passage that is recorded
        q = ht.bunch(s["b"], c["ch"])
        first = by_id(q)
        kmax = max(max(abs(live[i][0] - first[i][0]), abs(live[i][1] - first[i][1])) for i in first)
        if s["early"] and not s["mode"]:        # the cloud may already have been in use
            random.seed(0)
            c20.reseed(ec, s)
            ec.track(ht.bunch(s["b"], c["ch"]))
            require(np.array_equal(q.xp, ht.bunch(s["b"], c["ch"]).xp), "internal: bunch not reproducible")
            ec.N_tracks = 0
        random.seed(0)
        c20.reseed(ec, s)
        if s["mode"]:
            l, cut = members(q, sl)
            lst = (cut + l[::-1]) if s["early"] else l[::-1] + cut
            ec.track_once_and_replace_with_recorded_field_map(lst, delete_ecloud_data=s["delete"])
            got = {}
            for w in lst:
                got.update(by_id(w))
        else:
            ec.track_once_and_replace_with_recorded_field_map(q, delete_ecloud_data=s["delete"])
            got = by_id(q)
        require(all(max(abs(got[i][0] - live[i][0]), abs(got[i][1] - live[i][1])) <= 1e-9 * kmax + 4e-16 for i in live), "the recorded passage kicks differently from the ordinary one")
        # replays
        n = 0
        X, Y = bu.half_size(c["ch"])
        for turn in range(s["turns"]):
            for other in (False, True):
                q = ht.bunch(dict(s["b"], seed=s["seed2"] + turn) if other else s["b"], c["ch"])
                if other:       # the same slices for particles elsewhere, of another intensity
                    q.z[:] = ht.bunch(s["b"], c["ch"]).z * s["f2"]
                    q.particlenumber_per_mp *= 0.37
                p0 = q.__class__(q.macroparticlenumber, q.particlenumber_per_mp, q.charge, q.mass, q.circumference, q.gamma, {k: np.array(getattr(q, k)) for k in ht.COORD})
                random.seed(0)
                before = ht.state(q)
                if s["mode"]:
                    l, cut = members(q, sl)
                    lst = (cut + l[::-1]) if s["early"] else l[::-1] + cut
                    for w in lst:
                        ec.track(w)
                    ec.finalize_and_reinitialize()
                    got = {}
                    for w in lst:
                        got.update(by_id(w))
                    pos = {int(i): (a, b, d, e) for w in lst for i, a, b, d, e in zip(w.id, w.x, w.y, w.z, w.dp)}
                    require(all(pos[i + 1] == tuple(before[[0, 2, 4, 5], i]) for i in range(before.shape[1])), "the frozen cloud changes more than the slopes")
                else:
                    ec.track(q)
                    got = by_id(q)
                    require(np.array_equal(ht.state(q)[[0, 2, 4, 5]], before[[0, 2, 4, 5]]), "the frozen cloud changes more than the slopes")
                random.seed(0)
                what = "passage %d, %s bunch" % (turn + 1, "another" if other else "the same")
                n += judge(p0, got, sl, c, maps, ref, what, s["b"]["wide"])
                if not other:
                    x, y = p0.x + ox, p0.y + oy
                    for i, ok in zip(p0.id, interior(ref, x, y)):
                        if ok:
                            a, b = got[int(i)], live[int(i)]
                            require(max(abs(a[0] - b[0]), abs(a[1] - b[1])) <= 1e-7 * kmax + 4e-16, lambda: "%s: frozen and live kicks differ by %.3g of the largest" % (what, max(abs(a[0] - b[0]), abs(a[1] - b[1])) / (kmax + 1e-300)))
    if n:
        out = ["slice by slice" if s["mode"] else "whole", "turns%d" % s["turns"]]
        if cut:
            out.append("unsliced")
        if any(w.macroparticlenumber == 0 for w in l):
            out.append("empty slices")
        if c["ex"] is False or c["ey"] is False:
            out.append("kick disabled")
        return out


map_spec = st.fixed_dictionaries(dict(b=ht.bunch_spec, sl=ht.slicing, nx=st.integers(4, 14), ny=st.integers(4, 14), w=fl(0.5, 2.0), seed=gen.seeds, L=logfl(0.1, 1e4), ox=fl(-0.3, 0.3), oy=fl(-0.3, 0.3),
                                      cen=st.booleans(), clean=st.booleans(), mode=st.booleans(), turns=st.integers(1, 3), amp=logfl(1.0, 1e6), shift=fl(-1.0, 1.0)))


@check.sub("map", map_spec, quick=250, thorough=20000, shards=2, thorough_shards=6)
def map_(s):
    """Maps of given fields: every slice is kicked by its own field, interpolated where its particles are."""
    X = Y = 0.02
    ch = dict(kind="ellip", a=X, b=Y)
    r = gen.rng(s["seed"])
    sl = ht.slicer(s["sl"], s["b"])
    n = s["sl"]["n"]
    q = ht.bunch(s["b"], ch)
    if s["sl"]["charge"] and n > s["b"]["n"] // 3:
        sl = ht.slicer(dict(s["sl"], charge=False), s["b"])
    xg = np.linspace(-s["w"] * X, s["w"] * X, s["nx"])
    yg = xg[0] + (xg[1] - xg[0]) * np.arange(s["ny"]) + 0.3 * s["shift"] * X
    Ex, Ey = s["amp"] * r.randn(n, s["nx"], s["ny"]), s["amp"] * r.randn(n, s["nx"], s["ny"])
    kept = Ex.copy(), Ey.copy()
    m = pye.Transverse_Efield_map_for_frozen_cloud.Transverse_Efield_map(
        xg=xg, yg=yg, Ex=Ex, Ey=Ey, L_interaction=s["L"], slicer=None if s["mode"] else sl, flag_clean_slices=s["clean"], wrt_slice_centroid=s["cen"],
        x_beam_offset=s["ox"] * X, y_beam_offset=s["oy"] * Y, slice_by_slice_mode=s["mode"])
    good = 0
    stale = None
    for turn in range(s["turns"]):
        if turn:                # particles move between the passages
            for k in ("x", "y", "z"):
                a = getattr(q, k)
                a[:] = a[r.permutation(len(a))]
            if s["clean"] and not s["mode"]:
                pass            # slices of the passage before are there and out of date
        random.seed(turn if s["mode"] or s["clean"] else 0)
        if s["mode"] or s["clean"] or stale is None:
            z = np.array(q.z)
        else:
            z = stale           # slices are those of the first passage
        p0 = q.__class__(q.macroparticlenumber, q.particlenumber_per_mp, q.charge, q.mass, q.circumference, q.gamma, {k: np.array(z if k == "z" else getattr(q, k)) for k in ht.COORD})
        stale = z
        l = p0.extract_slices(sl)
        before = ht.state(q)
        random.seed(turn if s["mode"] or s["clean"] else 0)
        if s["mode"]:
            for w in ([w for w in l if isinstance(w.slice_info, str)] + [w for w in l if not isinstance(w.slice_info, str)][::-1]):
                v = w.__class__(w.macroparticlenumber, w.particlenumber_per_mp, w.charge, w.mass, w.circumference, w.gamma, {k: np.array(getattr(w, k)) for k in ht.COORD})
                v.slice_info = w.slice_info
                v.id[:] = w.id
                m.track(v)
                for i, a, b in zip(v.id, v.xp, v.yp):
                    q.xp[np.argmax(q.id == i)], q.yp[np.argmax(q.id == i)] = a, b
            m.finalize_and_reinitialize()
        else:
            m.track(q)
        after = ht.state(q)
        require(np.array_equal(after[[0, 2, 4, 5]], before[[0, 2, 4, 5]]), "the map changes more than the slopes")
        want = before.copy()
        f = ht.fact(q, s["L"])
        for k, w in enumerate(w for w in l if not isinstance(w.slice_info, str)):
            if w.macroparticlenumber == 0:
                continue
            cx, cy = (w.x.mean(), w.y.mean()) if s["cen"] else (0.0, 0.0)
            x, y = w.x - cx + s["ox"] * X, w.y - cy + s["oy"] * Y
            i = w.id - 1
            want[1, i] += f * ht.bilinear(xg, yg, kept[0][k], x, y)[0]
            want[3, i] += f * ht.bilinear(xg, yg, kept[1][k], x, y)[0]
            good += w.macroparticlenumber >= 2
        big = abs(f) * np.abs(kept[0]).max()
        d = np.abs(after - want)[[1, 3]].max()
        require(d <= 1e-8 * big + 1e-15 * np.abs(want).max(), lambda: "passage %d: kicks are not those of the fields of the slices: off by %.3g of the largest" % (turn + 1, d / big))
        require(np.array_equal(kept[0], Ex) and np.array_equal(kept[1], Ey), "tracking changes the fields of the map")
    if good:
        return ["slice by slice" if s["mode"] else "whole", "centroid" if s["cen"] else "axis", "slices%d" % n, "clean" if s["clean"] else "keep slices"]


meta_spec = st.tuples(c20.spec, st.fixed_dictionaries(dict(nb=st.integers(1, 3), inter=st.lists(st.booleans(), min_size=8, max_size=8), turns=st.integers(1, 3), seed2=gen.seeds))).map(lambda t: dict(t[0], **t[1]))


@check.sub("train", meta_spec, quick=50, thorough=3000, shards=2, thorough_shards=4)
def train(s):
    """A train of bunches whose slices carry information about them: the frozen cloud starts anew at the first slice of the first bunch and leaves marked slices alone."""
    c, p, sl, dt = c20.setup(s, sec=dict(model="perfect_absorber"))
    sl = ht.slicer(dict(s["sl"], charge=False), s["b"])

    def slices(seed):
        out = []
        for ib in range(s["nb"]):
            pb = ht.bunch(dict(s["b"], seed=seed + ib), c["ch"])
            for i, w in enumerate(pb.extract_slices(sl, include_non_sliced="never")[::-1]):
                w.slice_info["info_parent_bunch"] = dict(i_bunch=ib)
                w.slice_info["i_slice"] = i
                w.slice_info["interact_with_EC"] = s["inter"][(i + 3 * ib) % 8]
                out.append(w)
        return out

    with pye.TempDir():
        cfg = ht.config(dict(c, Dt=None), dt)
        np.random.seed(c["seed"] % 2 ** 31)
        ec = ht.ecloud(c, cfg, dt, sl, True)
        np.random.seed(c["seed"] % 2 ** 31)
        es = ht.ecloud(c, cfg, dt, sl, True)
        ref = ht.Reference(c, cfg)
        maps = []
        for w in slices(s["b"]["seed"]):
            es.track(w)
            maps.append(np.array([es.spacech_ele.efx, es.spacech_ele.efy]))
        ec.track_once_and_replace_with_recorded_field_map(slices(s["b"]["seed"]))
        n = 0
        for turn in range(s["turns"]):
            for k, w in enumerate(slices(s["seed2"] + 10 * turn)):
                before = ht.state(w)
                inter = w.slice_info["interact_with_EC"]
                want = before.copy()
                if w.macroparticlenumber and inter:
                    o = np.argsort(w.id)
                    kx, ky = frozen(c, w, o, maps[k], ref)
                    want[1] += kx
                    want[3] += ky
                    n += len(kx) >= 2
                ec.track(w)
                big = abs(ht.fact(w, c["L"])) * np.abs(maps[k]).max()
                d = np.abs(ht.state(w) - want).max(initial=0.0)
                require(d <= 1e-8 * big + 1e-18, lambda: "turn %d, slice %d of the train (%s): kick off by %.3g of the largest" % (turn, k, "interacting" if inter else "not interacting", d / (big + 1e-300)))
    if n:
        return ["bunches%d" % s["nb"], "turns%d" % s["turns"]]

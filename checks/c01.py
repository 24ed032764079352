"""C01: macroparticle housekeeping against a reference model of the cloud."""
import numpy as np
from hypothesis import strategies as st

from vlib import pye, gen
from vlib.harness import Check, require

check = Check("C01", rule="history in which at least two operations changed the stored particles (inserted, dropped, "
              "regenerated); for regenerations the threshold was really passed",
              assumptions=["random choices of the code are compared through exact relations (subset, common factor, "
                           "rounding to whole macroparticles) or through 7-sigma binomial intervals",
                           "targets of soft regenerations are 40 or more macroparticles, of which 60 or more carry charge before"])

E, ME = gen.E_CH, gen.M_E
NAMES = ("x_mp", "y_mp", "z_mp", "vx_mp", "vy_mp", "vz_mp", "nel_mp", "t_last_impact")
chamb = gen.chambers(("ellip", "rect", "convex"))
species = st.sampled_from([(-1.0, 1.0), (1.0, 1836.15 * 18), (-1.0, 1836.15)])


def make(spec, n_max=6000, **over):
    c = gen.build_chamber(spec["chamb"])
    p = dict(N_mp_regen_low=spec.get("low", 5000), N_mp_regen=spec.get("regen", 10 ** 9),
             N_mp_after_regen=spec.get("after", 400), Dx_hist_reg=c.x_aper / spec.get("nxh", 40),
             Nx_reg=spec.get("nx", 21), Ny_reg=spec.get("ny", 21), Nvx_reg=spec.get("nvx", 21),
             Nvy_reg=spec.get("nvy", 21), Nvz_reg=spec.get("nvz", 21), regen_hist_cut=spec.get("cut", 1e-4))
    p.update(over)
    q, m = spec["species"]
    mp = pye.MP_system.MP_system(n_max, spec["ref0"], spec["fsplit"], spec["fclean"],
                                 p["N_mp_regen_low"], p["N_mp_regen"], p["N_mp_after_regen"], p["Dx_hist_reg"],
                                 p["Nx_reg"], p["Ny_reg"], p["Nvx_reg"], p["Nvy_reg"], p["Nvz_reg"],
                                 p["regen_hist_cut"], c, N_mp_soft_regen=spec.get("soft"),
                                 N_mp_after_soft_regen=spec.get("soft_after"), N_mp_async_regen=spec.get("asyn"),
                                 N_mp_after_async_regen=spec.get("asyn_after"), charge=q * E, mass=m * ME,
                                 flag_lifetime_hist=spec["life"], name="c")
    return mp, c


def snap(mp):
    n = int(mp.N_mp)
    d = {k: getattr(mp, k)[:n].copy() for k in NAMES if hasattr(mp, k)}
    if "t_last_impact" not in d:
        d["t_last_impact"] = np.full(n, -1.0)
    return d


def common(mp, spec):
    n = int(mp.N_mp)
    require(n == mp.N_mp and n >= 0, "N_mp is %r" % (mp.N_mp,))
    require(np.all(mp.nel_mp[n:] == 0), "unused storage carries charge %g" % np.sum(np.abs(mp.nel_mp[n:])))
    require(np.all(np.isfinite(mp.nel_mp[:n])) and np.all(mp.nel_mp[:n] >= 0), "bad macroparticle sizes")
    require(abs(mp.nel_mp_split - spec["fsplit"] * mp.nel_mp_ref) <= 1e-12 * mp.nel_mp_split,
            "splitting size %g is not fact_split x reference %g" % (mp.nel_mp_split, mp.nel_mp_ref))
    require(abs(mp.nel_mp_cl_th - spec["fclean"] * mp.nel_mp_ref) <= 1e-12 * mp.nel_mp_cl_th + 1e-300,
            "cleaning size is not fact_clean x reference")


def same(a, b, what):
    for k in NAMES:
        require(a[k].shape == b[k].shape and np.array_equal(a[k], b[k]),
                lambda: "%s: %s changed: %s -> %s" % (what, k, b[k][:5], a[k][:5]))


def sel(d, m):
    return {k: v[m] for k, v in d.items()}


def as_multiset(d):
    o = np.lexsort([d[k] for k in NAMES])
    return {k: v[o] for k, v in d.items()}


def check_inserted(mp, c, spec, new, box, Einit, what):
    q, m = spec["species"]
    require(np.all(new["nel_mp"] == mp.nel_mp_ref), what + ": new macroparticles are not of the reference size")
    require(np.all(new["t_last_impact"] == -1), lambda: what + ": a new macroparticle carries a last-impact time %s"
            % new["t_last_impact"][new["t_last_impact"] != -1][:3])
    ins, marg = gen.is_inside(spec["chamb"], new["x_mp"], new["y_mp"])
    require(np.all(ins | (marg < 1e-12)), what + ": created outside the chamber")
    x1, x0, y1, y0 = box
    require(np.all((new["x_mp"] >= x0) & (new["x_mp"] <= x1) & (new["y_mp"] >= y0) & (new["y_mp"] <= y1)),
            what + ": created outside the requested box")
    require(np.all(new["z_mp"] == 0), what + ": z of a new macroparticle is not 0")
    v2 = new["vx_mp"] ** 2 + new["vy_mp"] ** 2 + new["vz_mp"] ** 2
    ek = 0.5 * m * ME * v2 / E
    require(np.all(ek <= Einit * (1 + 1e-9)), lambda: what + ": kinetic energy %g eV above the configured %g eV"
            % (ek.max(), Einit))


op = st.one_of(
    st.fixed_dictionaries(dict(op=st.just("uniform"), n=gen.fl(0, 60), E=gen.logfl(1e-3, 1e3), box=st.booleans(),
                               seed=gen.seeds)),
    st.fixed_dictionaries(dict(op=st.just("density"), n=gen.fl(0, 80), E=gen.logfl(1e-3, 1e3), box=st.booleans(),
                               seed=gen.seeds)),
    st.fixed_dictionaries(dict(op=st.just("list"), n=st.one_of(st.integers(0, 120), st.integers(60, 160)),
                               seed=gen.seeds, size=st.sampled_from([0.0, 1e-4, 1.0, 30.0]))),
    st.fixed_dictionaries(dict(op=st.just("file"), n=st.integers(0, 60), seed=gen.seeds, t=st.booleans())),
    st.fixed_dictionaries(dict(op=st.just("hit"), f=gen.fl(0, 1), t=gen.fl(0, 1e-6), seed=gen.seeds)),
    st.fixed_dictionaries(dict(op=st.just("drop"), f=gen.fl(0, 1), seed=gen.seeds)),
    st.fixed_dictionaries(dict(op=st.just("clean"))),
    st.fixed_dictionaries(dict(op=st.just("soft"))),
    st.fixed_dictionaries(dict(op=st.just("async"))),
    st.fixed_dictionaries(dict(op=st.just("roundtrip"))),
    st.fixed_dictionaries(dict(op=st.just("ref"), f=gen.logfl(0.1, 30))),
)

history = st.fixed_dictionaries(dict(
    chamb=chamb, species=species, ref0=gen.logfl(1e2, 1e6), fsplit=gen.fl(1.1, 4), fclean=gen.logfl(1e-6, 0.3),
    life=st.booleans(), soft=st.sampled_from([40, 60, 100, 250]), soft_after=st.sampled_from([40, 60]),
    asyn=st.sampled_from([40, 80, 160]), asyn_after=st.sampled_from([40, 50]),
    ops=st.lists(op, min_size=5, max_size=16)))


def soft_expect(mp, spec, before, after, target, what):
    """A soft regeneration ran on `before`."""
    n = len(before["nel_mp"])
    Q = before["nel_mp"].sum()
    if n <= target:
        same(after, before, what + " (already at or below its target)")
        return False
    k = len(after["nel_mp"])
    p = target / float(n)
    require(gen.binom_ok(k, n, p), "%s: %d of %d macroparticles kept, target %d" % (what, k, n, target))
    require(abs(after["nel_mp"].sum() - Q) <= 1e-10 * Q, "%s: charge went from %.15g to %.15g" %
            (what, Q, after["nel_mp"].sum()))
    # survivors keep everything but a common rescaling factor; identify them by their unique z
    iz = {z: i for i, z in enumerate(before["z_mp"])}
    require(len(iz) == n, "internal: z labels not unique")
    require(all(z in iz for z in after["z_mp"]), what + ": a macroparticle appeared from nowhere")
    idx = np.array([iz[z] for z in after["z_mp"]], int)
    require(len(set(idx)) == k, what + ": a macroparticle was duplicated")
    for nm in NAMES:
        if nm != "nel_mp":
            require(np.array_equal(after[nm], before[nm][idx]), "%s: %s of a surviving macroparticle changed" % (what, nm))
    b = before["nel_mp"][idx]
    if b.sum() > 0:
        f = Q / b.sum()
        require(gen.close(after["nel_mp"], b * f, 1e-9), what + ": survivors not scaled by one common factor")
    exp = max(Q / target, spec["ref0"])
    require(abs(mp.nel_mp_ref - exp) <= 1e-9 * exp, "%s: reference size %g instead of %g" % (what, mp.nel_mp_ref, exp))
    return True


@check.sub("history", history, quick=1500, thorough=60000, shards=4, thorough_shards=8)
def history_case(spec):
    mp, c = make(spec)
    nchange = 0
    labels = set()
    tick = [0.0]

    def fresh_z(n):
        tick[0] += 1.0
        return tick[0] + np.arange(n) * 1e-6

    def relabel(n0):
        # give the particles added since n0 a unique z so that they can be followed
        n = int(mp.N_mp)
        mp.z_mp[n0:n] = fresh_z(n - n0)

    for o in spec["ops"]:
        before = snap(mp)
        n0 = int(mp.N_mp)
        ref = mp.nel_mp_ref
        k = o["op"]
        r = gen.rng(o.get("seed", 0))
        if k in ("uniform", "density"):
            if o["box"]:
                fx = np.sort(r.rand(2) * 0.6 - 0.3)
                fy = np.sort(r.rand(2) * 0.6 - 0.3)
                box = (c.x_aper * (fx[1] + .01), c.x_aper * (fx[0] - .01), c.y_aper * (fy[1] + .01), c.y_aper * (fy[0] - .01))
                mid = gen.is_inside(spec["chamb"], np.array([(box[0] + box[1]) / 2]), np.array([(box[2] + box[3]) / 2]))
                if not mid[0][0]:
                    continue
                args = box
            else:
                args = (None,) * 4
                box = (c.x_aper, -c.x_aper, c.y_aper, -c.y_aper)
            if k == "uniform":
                mp.add_uniform_MP_distrib(o["n"] * ref, o["E"], *args)
                lo, hi = np.floor(o["n"] * (1 - 1e-12)), np.ceil(o["n"] * (1 + 1e-12))
            else:
                dens = o["n"] * ref / ((box[0] - box[1]) * (box[2] - box[3]))
                mp.add_uniform_ele_density(dens, o["E"], *args)
                lo, hi = 0, np.ceil(o["n"] * (1 + 1e-12))
                if o["box"]:
                    cx = np.array([box[0], box[0], box[1], box[1]]); cy = np.array([box[2], box[3], box[2], box[3]])
                    i, m = gen.is_inside(spec["chamb"], cx, cy)
                    if np.all(i & (m > 1e-9)):
                        lo = np.floor(o["n"] * (1 - 1e-12))
                elif o["n"] > 20:
                    # fraction of the box covered by the chamber
                    require(gen.binom_ok(mp.N_mp - n0, o["n"], min(1.0, c.area / (4 * c.x_aper * c.y_aper))),
                            "density insertion gave %d macroparticles of %g in the box" % (mp.N_mp - n0, o["n"]))
            after = snap(mp)
            nn = int(mp.N_mp) - n0
            require(lo <= nn <= hi, "%s: %d macroparticles inserted for %g requested" % (k, nn, o["n"]))
            same(sel(after, slice(0, n0)), before, k + ": existing macroparticles")
            check_inserted(mp, c, spec, sel(after, slice(n0, None)), box, o["E"], k)
            relabel(n0)
            nchange += nn > 0
        elif k == "list":
            n = o["n"]
            d = [r.randn(n) for _ in range(6)]
            d[2] = fresh_z(n)
            nel = o["size"] * ref * r.rand(n) * (r.rand(n) > 0.1)
            t = r.rand(n)
            mp.add_new_MPs(n, nel, d[0], d[1], d[2], d[3], d[4], d[5], t)
            after = snap(mp)
            require(mp.N_mp == n0 + n, "list insertion: count is wrong")
            same(sel(after, slice(0, n0)), before, "list: existing macroparticles")
            exp = dict(zip(NAMES, d + [nel, t if spec["life"] else np.full(n, -1.0)]))
            same(sel(after, slice(n0, None)), exp, "list: inserted macroparticles")
            nchange += n > 0
        elif k == "file":
            n = o["n"]
            d = {nm: r.randn(n) for nm in NAMES[:6]}
            d["z_mp"] = fresh_z(n)
            d["nel_mp"] = ref * r.rand(n)
            d["N_mp"] = n
            if o["t"]:
                d["t_last_impact"] = r.rand(n)
            if n % 2:
                import scipy.io as sio
                with pye.TempDir():
                    sio.savemat("mps.mat", d)
                    mp.add_from_file("mps.mat")
            else:
                mp.add_from_file(d)
            after = snap(mp)
            require(mp.N_mp == n0 + n, "file insertion: count is wrong")
            same(sel(after, slice(0, n0)), before, "file: existing macroparticles")
            exp = {nm: d[nm] for nm in NAMES[:7]}
            exp["t_last_impact"] = d["t_last_impact"] if (o["t"] and spec["life"]) else np.full(n, -1.0)
            same(sel(after, slice(n0, None)), exp, "file: inserted macroparticles")
            nchange += n > 0
        elif k == "hit":
            if spec["life"] and n0:
                m = r.rand(n0) < o["f"]
                mp.t_last_impact[:n0][m] = o["t"]
        elif k == "drop":
            # charge lost in an impact: sizes shrink, some to zero
            m = r.rand(n0) < o["f"]
            mp.nel_mp[:n0][m] *= r.rand(int(m.sum())) ** 8
        elif k == "ref":
            mp.set_nel_mp_ref(max(spec["ref0"], ref * o["f"]))
        elif k == "clean":
            th = mp.nel_mp_cl_th
            mp.clean_small_MPs()
            after = snap(mp)
            exp = sel(before, before["nel_mp"] >= th)
            same(as_multiset(after), as_multiset(exp), "clean")
            require(mp.nel_mp_ref == (spec["ref0"] if mp.N_mp == 0 else ref),
                    "clean: reference size %g (before %g, initial %g, left %d)" % (mp.nel_mp_ref, ref, spec["ref0"], mp.N_mp))
            nchange += len(after["x_mp"]) < n0
            if len(after["x_mp"]) < n0:
                labels.add("cleaned")
        elif k == "soft":
            nz = int(np.sum(before["nel_mp"] > 0))
            if 0 < nz < 60 and n0 > spec["soft"]:
                continue        # the few that carry charge may all be among the removed ones
            mp.check_for_soft_regeneration()
            after = snap(mp)
            if nz == 0:
                require(np.all(mp.nel_mp == 0), "soft regeneration of an empty cloud created charge %s" % mp.nel_mp[:3])
                continue
            if n0 > spec["soft"]:
                if soft_expect(mp, spec, before, after, spec["soft_after"], "soft regeneration"):
                    labels.add("soft")
                    nchange += 1
            else:
                same(after, before, "soft regeneration below its threshold")
                require(mp.nel_mp_ref == ref, "soft regeneration below threshold changed the reference size")
        elif k == "async":
            th = mp.nel_mp_cl_th
            if np.sum(before["nel_mp"] > 0) < 60 and n0 > spec["asyn"]:
                continue
            mp.check_for_async_regeneration()
            after = snap(mp)
            if n0 > spec["asyn"]:
                cl = sel(before, before["nel_mp"] >= th)
                if len(cl["x_mp"]) > spec["asyn"]:
                    if soft_expect(mp, spec, cl, after, spec["asyn_after"], "asynchronous regeneration"):
                        labels.add("async")
                        nchange += 1
                else:
                    same(as_multiset(after), as_multiset(cl), "asynchronous clean")
            else:
                same(after, before, "asynchronous regeneration below its threshold")
        elif k == "roundtrip":
            d = mp.extract_dict()
            keep = {kk: np.array(v) for kk, v in d.items()}
            mp.x_mp[:n0] += 1.0          # the extracted record must not alias the live arrays
            k2 = min(37, len(mp.nel_mp) - n0)   # the cloud grows before it is taken back to the stored one
            for arr in (mp.x_mp, mp.y_mp, mp.z_mp, mp.vx_mp, mp.vy_mp, mp.vz_mp):
                arr[n0:n0 + k2] = 0.5 * arr[0] if n0 else 0.0
            mp.nel_mp[n0:n0 + k2] = 3.0 * mp.nel_mp_ref
            mp.N_mp = n0 + k2
            mp.init_from_dict(d)
            for kk in keep:
                require(np.array_equal(np.atleast_1d(np.array(d[kk])), np.atleast_1d(keep[kk])),
                        "extracted record aliases the live arrays: " + kk)
            after = snap(mp)
            b2 = dict(before)
            b2["t_last_impact"] = np.full(n0, -1.0)    # a stored cloud carries no impact times
            a2 = dict(after)
            if spec["life"]:
                if "t_last_impact" in d:
                    b2["t_last_impact"] = before["t_last_impact"]
            same(a2, b2, "extract/init round trip")
        common(mp, spec)
    if nchange >= 2:
        return sorted(labels) or ["plain"]


# ------------------------------------------------------------------ full regeneration

cluster = st.fixed_dictionaries(dict(n=st.integers(1, 60), x=gen.fl(-1, 1), y=gen.fl(-1, 1), vx=gen.fl(-1, 1),
                                     vy=gen.fl(-1, 1), vz=gen.fl(-1, 1), nel=gen.logfl(0.05, 20)))
odd = st.integers(5, 53)
full = st.fixed_dictionaries(dict(
    chamb=chamb, species=species, ref0=gen.logfl(1e2, 1e6), fsplit=gen.fl(1.1, 4), fclean=gen.logfl(1e-6, 0.3),
    life=st.booleans(), after=st.integers(5, 400), nx=odd, ny=odd, nvx=odd, nvy=odd, nvz=odd,
    nxh=st.integers(5, 120), cut=gen.logfl(1e-6, 0.05), refmul=st.sampled_from([1.0, 1.0, 3.0, 50.0]),
    vscale=st.sampled_from([0.0, 1e3, 1e6, 1e7]), regen=st.integers(1, 400), low=st.integers(0, 400),
    clusters=st.lists(cluster, min_size=1, max_size=12), stale=st.booleans()))


@check.sub("full-regeneration", full, quick=500, thorough=30000, shards=3, thorough_shards=8)
def full_case(spec):
    mp, c = make(spec, low=spec["low"])
    r = gen.rng(len(spec["clusters"]) * 7 + spec["after"])
    if spec["stale"]:
        mp.vx_mp[-3:] = 2e7         # left over from particles that are gone
        mp.z_mp[-3:] = 5.
    pts = []
    for cl in spec["clusters"]:
        s = 0.95
        x, y = cl["x"] * c.x_aper, cl["y"] * c.y_aper
        # pull the point towards the centre until it is inside the scaled chamber
        for _ in range(200):
            if gen.is_inside(spec["chamb"], np.array([x / s]), np.array([y / s]))[0][0]:
                break
            x, y = x * 0.9, y * 0.9
        pts.append((x, y, cl["vx"] * spec["vscale"], cl["vy"] * spec["vscale"], cl["vz"] * spec["vscale"],
                    cl["nel"] * spec["ref0"] * spec["refmul"], cl["n"]))
    for x, y, vx, vy, vz, nel, n in pts:
        mp.add_new_MPs(n, nel, x, y, r.randn(n), vx, vy, vz, 0.5)
    mp.set_nel_mp_ref(spec["ref0"] * spec["refmul"])
    ref = mp.nel_mp_ref
    before = snap(mp)
    n0 = int(mp.N_mp)
    Q = before["nel_mp"].sum()
    vmax = [max(np.max(np.abs(getattr(mp, k))), 1e-5) for k in ("vx_mp", "vy_mp", "vz_mp")]
    mp.check_for_regeneration()
    after = snap(mp)
    common(mp, spec)
    trig = n0 > spec["regen"] or (n0 < spec["low"] and ref > spec["ref0"])
    if not trig:
        same(after, before, "regeneration although no threshold is passed (N=%d)" % n0)
        require(mp.nel_mp_ref == ref, "reference size changed without a regeneration")
        return None
    exp = max(Q / spec["after"], spec["ref0"])
    require(abs(mp.nel_mp_ref - exp) <= 1e-9 * exp, "reference size %g after regeneration, expected %g" % (mp.nel_mp_ref, exp))
    ref1 = mp.nel_mp_ref
    require(np.all(after["nel_mp"] == ref1), "regenerated macroparticles are not of the reference size")
    require(np.all(after["t_last_impact"] == -1), "regenerated macroparticles carry a last-impact time")
    require(np.all(np.isfinite(after["z_mp"])), "z not finite")
    ins, marg = gen.is_inside(spec["chamb"], after["x_mp"], after["y_mp"])
    require(np.all(ins | (marg < 1e-12)), "regenerated outside the chamber")
    # cells: no larger than these
    Dxh = c.x_aper / spec["nxh"]
    D = [2 * (c.x_aper + 3 * Dxh) / (spec["nx"] - 1), 2 * c.y_aper / (spec["ny"] - 1),
         2 * vmax[0] / (spec["nvx"] - 1), 2 * vmax[1] / (spec["nvy"] - 1), 2 * vmax[2] / (spec["nvz"] - 1)]
    # group the initial points that a cell may contain together (connected by less than two cells in all coordinates)
    m = len(pts)
    P = np.array([p[:5] for p in pts])
    link = np.all(np.abs(P[:, None, :] - P[None, :, :]) <= 2.0 * np.array(D) * (1 + 1e-9) + 1e-30, axis=2)
    group = np.arange(m)
    for _ in range(m):
        for i in range(m):
            group[i] = min(group[j] for j in range(m) if link[i, j])
    A = np.stack([after[k] for k in ("x_mp", "y_mp", "vx_mp", "vy_mp", "vz_mp")], 1)
    near = np.all(np.abs(A[:, None, :] - P[None, :, :]) <= np.array(D) * (1 + 1e-9) + 1e-30, axis=2)
    require(np.all(near.any(1)), lambda: "a regenerated macroparticle is more than a cell away from every original: %s"
            % A[~near.any(1)][0])
    own = group[np.argmax(near, 1)] if len(A) else np.zeros(0, int)
    cut = 0.0
    for g in sorted(set(group)):
        mem = [i for i in range(m) if group[i] == g]
        q = sum(pts[i][5] * pts[i][6] for i in mem)
        got = float(np.sum(own == g)) * ref1
        ncell = len({pts[i][:5] for i in mem})
        if got == 0 and q > ncell * ref1:
            cut += q
            continue
        if abs(got - q) >= ncell * ref1 * (1 + 1e-9):
            # part of the group may have been cut away
            require(got < q, "a group of cells holding %g regenerates to %g (reference size %g)" % (q, got, ref1))
            cut += q - got - ncell * ref1
    require(cut <= spec["cut"] * Q * (1 + 1e-9) + 1e-9 * Q, "regeneration dropped %g of %g, allowed cut %g" %
            (cut, Q, spec["cut"] * Q))
    return "high" if n0 > spec["regen"] else "low"


# ------------------------------------------------------------------ rounding to whole macroparticles is unbiased

unb = st.fixed_dictionaries(dict(chamb=chamb, species=species, ref0=gen.logfl(1e2, 1e6), fsplit=st.just(1.5),
                                 fclean=st.just(1e-4), life=st.booleans(), n=gen.fl(0.02, 0.98), seed=gen.seeds,
                                 kind=st.sampled_from(["uniform", "density", "full"])))


@check.sub("unbiased-rounding", unb, quick=40, thorough=2000, thorough_shards=8)
def unbiased_case(spec):
    mp, c = make(spec, n_max=20000, N_mp_regen=0, N_mp_after_regen=1)
    R = 500
    got = 0
    for _ in range(R):
        if spec["kind"] == "uniform":
            mp.add_uniform_MP_distrib(spec["n"] * mp.nel_mp_ref, 1., None, None, None, None)
        elif spec["kind"] == "density":
            f = 0.1
            mp.add_uniform_ele_density(spec["n"] * mp.nel_mp_ref / (4 * f * f * c.x_aper * c.y_aper), 1.,
                                       f * c.x_aper, -f * c.x_aper, f * c.y_aper, -f * c.y_aper)
        else:
            mp.N_mp = 0
            mp.nel_mp[:] = 0
            mp.add_new_MPs(1, spec["n"] * spec["ref0"], 0., 0., 0., 1e5, 0., 0., -1)
            mp.check_for_regeneration()
            got += int(mp.N_mp)
    if spec["kind"] != "full":
        got = int(mp.N_mp)
    p = spec["n"]
    if spec["kind"] == "density":
        cx = np.array([1, 1, -1, -1]) * 0.1 * c.x_aper
        cy = np.array([1, -1, 1, -1]) * 0.1 * c.y_aper
        i, m = gen.is_inside(spec["chamb"], cx, cy)
        if not np.all(i):
            return None
    require(gen.binom_ok(got, R, p), "%d macroparticles in %d repetitions, expected fraction %.3f" % (got, R, p))
    return spec["kind"]

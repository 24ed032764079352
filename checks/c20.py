"""C20: passage of bunches through an electron cloud (PyEC4PyHT)."""
import random

import numpy as np
from hypothesis import strategies as st

from checks import c19
from vlib import buildup as bu, dyn, gen, ht, impact, pye
from vlib.harness import Check, require

fl = gen.fl

check = Check("C20", rule="a case is non-trivial when at least one slice with two or more particles passed a cloud of ten or more macroparticles and was judged",
              assumptions=["bunches and slicers are those of the installed PyHEADTAIL", "the cloud's field on the electrons during a slice is that of the cloud at the end of the slice before (at the start: of the initial cloud)",
                           "fields to compare with come from a solver object of its own (correctness of the fields: C10) and its interpolation",
                           "emission of secondaries is judged by C02-C04 and C22; here random numbers are set anew so that passages can be compared"])

spec = st.fixed_dictionaries(dict(cl=ht.cloud_spec, b=ht.bunch_spec, sl=ht.slicing))


def dt_of(s, p, sl):
    """Duration of the longest slice."""
    random.seed(0)      # slices of equal charge use random numbers
    w = np.diff(p.get_slices(sl).z_bins)
    p.clean_slices()
    return float(np.max(w)) / (p.beta * ht.C)


def setup(s, **over):
    c = dict(s["cl"], **over)
    p = ht.bunch(s["b"], c["ch"])
    sl = ht.slicer(s["sl"], s["b"])
    if s["sl"]["charge"] and s["sl"]["n"] > s["b"]["n"] // 3:
        sl = ht.slicer(dict(s["sl"], charge=False), s["b"])
    dt = dt_of(s, p, sl)
    return c, p, sl, dt


def rows(ec):
    return impact.rows(ec.cloudsim.cloud_list[0].MP_e)


def judge_slice(ec, c, cfg, ref, piece, a0, E0, what, before, dz=None, interacts=True):
    """One slice has just passed: a0 rows and E0 nodal cloud field before it. Returns the cloud field after it and whether it was worth it."""
    cl = ec.cloudsim.cloud_list[0]
    m = cl.MP_e
    a1 = rows(ec)
    ox, oy = ht.offsets(c)
    X = max(bu.half_size(c["ch"]))
    n = piece.macroparticlenumber
    dz = piece.slice_info["z_bin_right"] - piece.slice_info["z_bin_left"] if dz is None else dz
    dt = dz / (piece.beta * ht.C)
    after = ht.state(piece)
    # ---- the beam
    E1 = ref.nodes(a1[0], a1[1], a1[6], m.charge)
    if n:
        k = ht.fact(piece, c["L"]) * (1.0 if interacts else 0.0)
        f = ref.at(E1, before[0] + ox, before[2] + oy)
        big = np.abs(E1).max()
        for row, on, g in ((1, c["ex"] is not False, f[0]), (3, c["ey"] is not False, f[1])):
            want = before[row] + (k * g if on else 0.0)
            tol = 1e-7 * abs(k) * big * on + 4e-16 * np.abs(before[row])
            require(np.all(np.abs(after[row] - want) <= tol),
                    lambda: "%s: kick of %s off by %.3g of the largest possible (expected %s, received %s)" % (
                        what, ht.COORD[row], np.max(np.abs(after[row] - want)) / (abs(k) * big + 1e-300), (want - before[row])[:3], (after[row] - before[row])[:3]))
        for row in (0, 2, 4, 5):
            require(np.array_equal(after[row], before[row]), what + ": the passage changed " + ht.COORD[row])
    # ---- the electrons
    if a0.shape[1]:
        qm = m.charge / m.mass
        if n and interacts:
            Eb = ref.nodes(before[0] + ox, before[2] + oy, np.full(n, piece.particlenumber_per_mp / dz), piece.charge)
        else:
            Eb = np.zeros_like(E1)
        nsub = max(int(np.round(dt / ec.Dt_ref)), 1) if dt > ec.Dt_ref else 1
        B = ht.external(c, cfg)
        x, v = a0[:3].copy(), a0[3:6].copy()
        scale = np.abs(v).max(0)
        if c["kick"]:
            e = ref.at(Eb, x[0], x[1])
            v = v + qm * dt * e
            scale = scale + np.abs(qm * dt * e).max(0)
            F = E0
        else:
            F = E0 + Eb
        e = ref.at(F, x[0], x[1])
        scale = scale + np.abs(qm * dt * e).max(0)
        if c["reinterp"] and interacts:
            for i in range(nsub):
                e = ref.at(F, x[0], x[1])
                scale = scale + np.abs(qm * dt / nsub * e).max(0)
                x, v = dyn.boris(x, v, e, B, qm, dt / nsub, 1)
        else:
            x, v = dyn.boris(x, v, e, B, qm, dt / nsub, nsub)
        ins, mar = gen.is_inside(c["ch"], x[0], x[1])
        near = mar < 1e-9 * X + 1e-7 * scale * dt
        inside = ins & ~near
        vm = scale.max() + 1e-300
        P = np.vstack([x, v, a0[6:7]])[:, inside]
        sc = [max(vm * dt, 1e-3 * X)] * 3 + [vm] * 3 + [max(a0[6].max(), 1e-300)]
        j = c19.find(P, a1[:7], sc, 2e-6)
        require(np.all(j >= 0), lambda: "%s: %d of %d electrons are not where cloud, slice and magnet send them (e.g. %s, nearest %s)" % (
            what, (j < 0).sum(), inside.sum(), P[:, np.argmax(j < 0)], c19.nearest(P[:, np.argmax(j < 0)], a1[:7], sc)))
        if c["sec"]["model"] == "perfect_absorber":
            left = int((a1[6] > 0).sum())       # what is absorbed stays, empty, until the next cleaning
            require((inside & (a0[6] > 0)).sum() <= left <= ((inside | near) & (a0[6] > 0)).sum(), lambda: "%s: %d electrons left, expected %d" % (what, left, inside.sum()))
    return E1, bool(interacts and n >= 2 and a0.shape[1] >= 10)


@check.sub("slices", spec, quick=150, thorough=6000, shards=3, thorough_shards=8)
def slices(s):
    """Slice by slice: kicks on the beam particles and motion of the electrons during every slice, over two passages."""
    c, p, sl, dt = setup(s)
    good, labels = 0, set()
    with pye.TempDir():
        cfg = ht.config(c, dt)
        np.random.seed(c["seed"] % 2 ** 31)
        ec = ht.ecloud(c, cfg, dt, sl, True)
        ref = ht.Reference(c, cfg)
        init = rows(ec)
        q = ec.cloudsim.cloud_list[0].MP_e.charge
        for turn in range(2):
            random.seed(0)
            list_ = p.extract_slices(sl)
            cut = [w for w in list_ if w.slice_info == "unsliced"]
            list_ = [w for w in list_ if w.slice_info != "unsliced"]
            E = ref.nodes(init[0], init[1], init[6], q)
            for w in cut + list_[::-1]:
                before, a0 = ht.state(w), rows(ec)
                pos = [np.array(getattr(w, k)) for k in ht.COORD]
                ec.track(w)
                if isinstance(w.slice_info, str):
                    require(np.array_equal(before, ht.state(w)), "particles outside the slices were kicked")
                    require(np.array_equal(a0, rows(ec)), "particles outside the slices acted on the cloud")
                    labels.add("unsliced")
                    continue
                if w.macroparticlenumber == 0:
                    labels.add("empty slice")
                E, ok = judge_slice(ec, c, cfg, ref, w, a0, E, "turn %d, slice at %g" % (turn, w.slice_info["z_bin_center"]), before)
                good += ok
                if rows(ec).shape[1] > 8000:
                    return
            ec.finalize_and_reinitialize()
            z = rows(ec)
            require(np.array_equal(z[:7], init[:7]), lambda: "after the passage the cloud is not as in the beginning: %d macroparticles (%.9g), %d (%.9g) at first" % (
                z.shape[1], z[6].sum(), init.shape[1], init[6].sum()))
            m = ec.cloudsim.cloud_list[0].MP_e
            require(abs(m.nel_mp_ref - m.nel_mp_ref_0) <= 1e-12 * m.nel_mp_ref_0, "after the passage the reference size is not the initial one")
            tot = list_[0]
            for w in list_[1:] + cut:
                tot = tot + w
            p = tot
    if good:
        labels |= {s["b"]["kind"], c["track"], "kick mode" if c["kick"] else "field mode", "reinterp" if c["reinterp"] else "fixed field"}
        if c["ex"] is False or c["ey"] is False:
            labels.add("kick disabled")
        return sorted(labels)


def reseed(ec, s):
    cl = ec.cloudsim.cloud_list[0]
    np.random.seed((s["cl"]["seed"] * 31 + 7) % 2 ** 31)
    return cl


RECORDS = ("save_ele_distributions_last_track", "save_ele_potential_and_field", "save_ele_potential", "save_ele_field", "save_ele_MP_position", "save_ele_MP_velocity",
           "save_ele_MP_size", "save_beam_distributions_last_track", "save_beam_potential_and_field", "save_beam_potential", "save_beam_field")


@check.sub("whole", st.tuples(spec, st.fixed_dictionaries(dict(rec=st.lists(st.sampled_from(RECORDS), max_size=6, unique=True), probes=st.integers(0, 3), clean=st.booleans(),
                                                             turns=st.integers(1, 3)))).map(lambda t: dict(t[0], **t[1])),
           quick=100, thorough=5000, shards=3, thorough_shards=8)
def whole(s):
    """The bunch passed whole equals the bunch passed slice by slice; passages repeat; what is recorded is what happened."""
    c, p0, sl, dt = setup(s)
    X, Y = bu.half_size(c["ch"])
    r = gen.rng(c["seed"])
    px, py = gen.points_inside(c["ch"], s["probes"], r, 0.8) if s["probes"] else (np.zeros(0), np.zeros(0))
    kw = dict(probes_position=[dict(x=float(a), y=float(b)) for a, b in zip(px, py)]) if s["probes"] else {}
    labels = set()
    with pye.TempDir():
        cfg = ht.config(c, dt)
        np.random.seed(c["seed"] % 2 ** 31)
        ec = ht.ecloud(c, cfg, dt, sl, False, flag_clean_slices=s["clean"], **kw)
        np.random.seed(c["seed"] % 2 ** 31)
        es = ht.ecloud(c, cfg, dt, sl, True)
        init = rows(ec)
        require(np.array_equal(init, rows(es)), "the same random numbers give different initial clouds")
        # slice by slice, watching
        p = ht.bunch(s["b"], c["ch"])
        first = ht.state(p)
        random.seed(0)
        list_ = p.extract_slices(sl)
        cut = [w for w in list_ if isinstance(w.slice_info, str)]
        list_ = [w for w in list_ if not isinstance(w.slice_info, str)]
        reseed(es, s)
        seen = []
        for w in list_[::-1]:
            es.track(w)
            sc = es.cloudsim.spacech_ele
            m = es.cloudsim.cloud_list[0].MP_e
            seen.append(dict(rho=np.array(sc.rho), phi=np.array(sc.phi), ex=np.array(sc.efx), ey=np.array(sc.efy), rows=impact.rows(m),
                             brho=np.array(es.beam_PyPIC_state.rho), bphi=np.array(es.beam_PyPIC_state.phi), bex=np.array(es.beam_PyPIC_state.efx), bey=np.array(es.beam_PyPIC_state.efy),
                             n=w.macroparticlenumber))
            if m.N_mp > 8000:
                return
        seen = seen[::-1]
        tot = list_[0]
        for w in list_[1:] + cut:
            tot = tot + w
        want = ht.state(tot)
        for f in s["rec"]:
            setattr(ec, f, True)
        q = None
        for turn in range(s["turns"]):
            q = ht.bunch(s["b"], c["ch"])
            require(np.array_equal(ht.state(q), first), "internal: bunch not reproducible")
            reseed(ec, s)
            random.seed(0)
            ec.track(q)
            got = ht.state(q)
            what = "passage %d" % (turn + 1)
            kmax = np.abs(want - first)[[1, 3]].max()
            d = np.abs(got - want)
            require(np.array_equal(got[[0, 2, 4, 5]], first[[0, 2, 4, 5]]), what + ": coordinates other than the slopes changed")
            require(d.max() <= 1e-9 * kmax + 1e-18, lambda: "%s: kick of the bunch passed whole differs by %.3g of the largest from slice by slice" % (what, d.max() / (kmax + 1e-300)))
            a = rows(ec)
            b = seen[0]["rows"]
            require(a.shape == b.shape and gen.close(a[:3], b[:3], 1e-9, 1e-9 * X) and gen.close(a[6], b[6], 1e-9), what + ": cloud after the bunch passed whole differs from slice by slice")
            out = [k for k in range(len(got[0])) if k + 1 in set(np.concatenate([w.id for w in cut]).tolist())] if cut else []
            require(np.array_equal(got[:, out], first[:, out]), what + ": particles outside the slices were kicked")
        # records: entry k belongs to slice k
        def rec(name, key, sub=None):
            if not hasattr(ec, name):
                require(False, name + " was asked for and is missing")
            v = getattr(ec, name)
            require(len(v) == len(seen), lambda: "%s has %d entries for %d slices" % (name, len(v), len(seen)))
            for k, e in enumerate(seen):
                if key.startswith("b") and e["n"] == 0:
                    continue
                A, B = np.asarray(v[k]), e[key]
                require(A.shape == B.shape and np.max(np.abs(A - B)) <= 1e-8 * np.abs(B).max() + 1e-300, lambda: "%s: entry %d is not that of slice %d" % (name, k, k))
        R = s["rec"]
        if "save_ele_distributions_last_track" in R:
            rec("rho_ele_last_track", "rho")
        if "save_ele_potential" in R or "save_ele_potential_and_field" in R:
            rec("phi_ele_last_track", "phi")
        if "save_ele_field" in R or "save_ele_potential_and_field" in R:
            rec("Ex_ele_last_track", "ex"), rec("Ey_ele_last_track", "ey")
        if "save_beam_distributions_last_track" in R:
            rec("rho_beam_last_track", "brho")
        if "save_beam_potential" in R or "save_beam_potential_and_field" in R:
            rec("phi_beam_last_track", "bphi")
        if "save_beam_field" in R or "save_beam_potential_and_field" in R:
            rec("Ex_beam_last_track", "bex"), rec("Ey_beam_last_track", "bey")
        if any("_MP_" in q_ for q_ in R):
            require(list(ec.N_MP_last_track) == [e["rows"].shape[1] for e in seen], "recorded numbers of macroparticles are not those of the slices")
        for f, names in (("save_ele_MP_position", (("x_MP_last_track", 0), ("y_MP_last_track", 1))), ("save_ele_MP_velocity", (("vx_MP_last_track", 3), ("vy_MP_last_track", 4))),
                         ("save_ele_MP_size", (("nel_MP_last_track", 6),))):
            if f in R:
                for name, k in names:
                    v = getattr(ec, name)
                    for i, e in enumerate(seen):
                        n = e["rows"].shape[1]
                        require(gen.close(v[i][:n], e["rows"][k], 1e-9, 1e-9 * np.abs(e["rows"][k]).max(initial=0)), lambda: "%s: entry %d is not that of slice %d" % (name, i, i))
        if s["probes"]:
            ref = ht.Reference(c, cfg)
            for k, e in enumerate(seen):
                f = ref.at(np.array([e["ex"], e["ey"]]), px, py)
                for name, g in (("Ex_ele_last_track_at_probes", f[0]), ("Ey_ele_last_track_at_probes", f[1])):
                    require(np.max(np.abs(getattr(ec, name)[k] - g)) <= 1e-8 * (np.abs(e["ex"]).max() + np.abs(e["ey"]).max()), lambda: "%s of slice %d is not the field there" % (name, k))
            labels.add("probes")
    if any(e["n"] >= 2 for e in seen) and init.shape[1] >= 10:
        labels |= {"turns%d" % s["turns"], "records" if s["rec"] else "no records", c["sec"]["model"] if isinstance(c["sec"]["model"], str) else "ecloud"}
        return sorted(labels)


@check.sub("shared", st.tuples(spec, st.fixed_dictionaries(dict(mode=st.booleans(), k=st.integers(2, 3), twin=st.booleans()))).map(lambda t: dict(t[0], **t[1])),
           quick=60, thorough=3000, shards=2, thorough_shards=6)
def shared(s):
    """Clouds along the machine that share one space-charge object act as if each had its own."""
    c, p0, sl, dt = setup(s, sec=dict(model="perfect_absorber"))
    with pye.TempDir():
        cfg = ht.config(c, dt)
        np.random.seed(c["seed"] % 2 ** 31)
        own = [ht.ecloud(c, cfg, dt, sl, s["mode"]) for _ in range(s["k"])]
        np.random.seed(c["seed"] % 2 ** 31)
        com = [ht.ecloud(c, cfg, dt, sl, s["mode"])]
        for _ in range(s["k"] - 1):
            com.append(com[0].generate_twin_ecloud_with_shared_space_charge())
        for a in com[1:]:
            require(a.spacech_ele is com[0].spacech_ele, "a twin has a space-charge object of its own")
        res = []
        for set_ in (own, com):
            p = ht.bunch(s["b"], c["ch"])
            out = []
            for turn in range(2):
                random.seed(0)
                if s["mode"]:
                    list_ = [w for w in p.extract_slices(sl, include_non_sliced="never")]
                    for w in list_[::-1]:
                        for ec in set_:
                            ec.track(w)
                        # betatron-like mixing between the slices is left out: slices do not exchange particles
                    for ec in set_:
                        out.append(rows(ec))
                    for ec in set_:
                        ec.finalize_and_reinitialize()
                    p = list_[0]
                    for w in list_[1:]:
                        p = p + w
                else:
                    for ec in set_:
                        ec.track(p)
                        out.append(rows(ec))
                out.append(ht.state(p))
            res.append(out)
        first = ht.state(ht.bunch(s["b"], c["ch"]))
    n = 0
    for i, (a, b) in enumerate(zip(*res)):
        require(a.shape == b.shape, lambda: "a cloud holds %d macroparticles with the space-charge object shared, %d with its own" % (b.shape[1], a.shape[1]))
        if a.shape[1] == 0:
            continue
        sc = np.abs(a).max(1, keepdims=True)
        require(np.all(np.abs(a - b) <= 1e-6 * sc), lambda: "%s with the space-charge object shared, off by %.3g of the largest" % (
            "the bunch is kicked differently" if a.shape[0] == 6 else "a cloud evolves differently", np.max(np.abs(a - b) / (sc + 1e-300))))
        n += a.shape[1] >= 10
    if n >= 2:
        return ["slice by slice" if s["mode"] else "whole", "k%d" % s["k"]]


@check.sub("metadata", st.tuples(spec, st.fixed_dictionaries(dict(nb=st.integers(1, 3), inter=st.lists(st.booleans(), min_size=8, max_size=8), long=st.integers(1, 4), turns=st.integers(1, 2),
                                                                 first=st.booleans(), scdt=st.sampled_from([None, 0.5, 2.2])))).map(lambda t: dict(t[0], **t[1])),
           quick=80, thorough=4000, shards=2, thorough_shards=6)
def metadata(s):
    """Slices that carry information about their bunch: the cloud starts anew at the first slice of the first bunch and only there; marked slices do not interact, whatever their length."""
    c, p, sl, dt = setup(s, sec=dict(model="perfect_absorber"), E0=min(s["cl"]["E0"], 5.0))
    c["Dt"] = 1.0
    sln = dict(s["sl"], charge=False)
    sl = ht.slicer(sln, s["b"])
    dt = max(dt_of(s, ht.bunch(dict(s["b"], seed=s["b"]["seed"] + i), c["ch"]), sl) for i in range(s["nb"])) * (1 + 1e-9)
    good, labels = 0, set()
    with pye.TempDir():
        cfg = ht.config(c, dt)
        np.random.seed(c["seed"] % 2 ** 31)
        ec = ht.ecloud(c, cfg, dt, sl, True)
        ref = ht.Reference(c, cfg)
        init = rows(ec)
        q = ec.cloudsim.cloud_list[0].MP_e.charge
        m = ec.cloudsim.cloud_list[0].MP_e
        for turn in range(s["turns"]):
            E = None
            for ib in range(s["nb"]):
                pb = ht.bunch(dict(s["b"], seed=s["b"]["seed"] + ib), c["ch"])
                list_ = pb.extract_slices(sl, include_non_sliced="never")
                for i, w in enumerate(list_[::-1]):
                    w.slice_info["info_parent_bunch"] = dict(i_bunch=ib)
                    w.slice_info["i_slice"] = i
                    inter = s["inter"][(i + 3 * ib) % 8]
                    w.slice_info["interact_with_EC"] = inter
                    if not inter:
                        w.slice_info["z_bin_left"] = w.slice_info["z_bin_right"] - s["long"] * (w.slice_info["z_bin_right"] - w.slice_info["z_bin_left"]) * 0.97
                    dz = w.slice_info["z_bin_right"] - w.slice_info["z_bin_left"]
                    before, a0 = ht.state(w), rows(ec)
                    if ib == 0 and i == 0:
                        a0 = init
                    if E is None:
                        E = ref.nodes(init[0], init[1], init[6], q)
                    ec.track(w)
                    what = "turn %d, bunch %d, slice %d" % (turn, ib, i)
                    dts = dz / (w.beta * ht.C)
                    if inter:
                        E, ok = judge_slice(ec, c, cfg, ref, w, a0, E, what, before)
                        good += ok
                    else:
                        require(np.array_equal(before, ht.state(w)), what + ": a slice that does not interact was kicked")
                        nst = int(np.ceil(dts / cfg["sim"]["Dt"])) if dts > cfg["sim"]["Dt"] else 1
                        a1 = rows(ec)
                        a0, a1 = a0[:, a0[6] > 0], a1[:, a1[6] > 0]
                        x, v, nel = a0[:3].copy(), a0[3:6].copy(), a0[6].copy()
                        qm = m.charge / m.mass
                        lost = False
                        d = dts / nst
                        nsub = max(int(np.round(d / ec.Dt_ref)), 1) if d > ec.Dt_ref else 1
                        for k in range(nst):
                            e = ref.at(E, x[0], x[1])
                            x, v = dyn.boris(x, v, e, ht.external(c, cfg), qm, d / nsub, nsub)
                            ins, mar = gen.is_inside(c["ch"], x[0], x[1])
                            lost = lost or not np.all(ins & (mar > 1e-9))
                            x, v, nel = x[:, ins], v[:, ins], nel[ins]
                            E = ref.nodes(x[0], x[1], nel, q)
                        if not lost:
                            require(a1.shape[1] == x.shape[1], lambda: "%s (not interacting): %d macroparticles became %d" % (what, a0.shape[1], a1.shape[1]))
                            vm = max(np.abs(v).max(initial=0), 1.0)
                            sc = [max(vm * dts, 1e-3 * max(bu.half_size(c["ch"])))] * 3 + [vm] * 3 + [max(nel.max(initial=0), 1.0)]
                            P = np.vstack([x, v, nel[None]])
                            j = c19.find(P, a1[:7], sc, 1e-5)
                            require(np.all(j >= 0), lambda: "%s: %d of %d electrons are not where they drift to while a slice passes without interaction (%d steps)" % (what, (j < 0).sum(), len(j), nst))
                            labels.add("drift in %s" % ("steps" if nst > 1 else "one step"))
                        E = ref.nodes(a1[0], a1[1], a1[6], q)
    if good or labels:
        return sorted(labels | {"bunches%d" % s["nb"], "turns%d" % s["turns"]})


@check.sub("output", st.tuples(spec, st.fixed_dictionaries(dict(turns=st.integers(1, 3), meta=st.booleans(), nb=st.integers(1, 3), detail=st.booleans(),
                                                               long=st.lists(st.sampled_from([0, 0, 0, 1, 3]), min_size=8, max_size=8)))).map(lambda t: dict(t[0], **t[1])),
           quick=60, thorough=2500, shards=2, thorough_shards=4)
def output(s):
    """Saved evolution of the cloud: one file per passage, holding that passage, slice by slice."""
    import os
    import scipy.io as sio
    c, p, sl, dt = setup(s, sec=dict(model="perfect_absorber"))
    sl = ht.slicer(dict(s["sl"], charge=False), s["b"])
    nb = s["nb"] if s["meta"] else 1
    bunches = [ht.bunch(dict(s["b"], seed=s["b"]["seed"]), c["ch"]) for _ in range(nb)]
    dt = dt_of(s, bunches[0], sl)
    c["Dt"] = 1.0 + 1e-9
    with pye.TempDir():
        cfg = ht.config(c, dt)
        np.random.seed(c["seed"] % 2 ** 31)
        ec = ht.ecloud(c, cfg, dt, sl, s["meta"], save_pyecl_outp_as="evol", logfile_path="log.txt", progress_path="progress.txt")
        np.random.seed(c["seed"] % 2 ** 31)
        es = ht.ecloud(c, cfg, dt, sl, True)
        X, Y = bu.half_size(c["ch"])
        want = []
        for turn in range(s["turns"]):
            rec, at, first, steps = [], [], [], []
            for ib in range(nb):
                q = ht.bunch(s["b"], c["ch"])
                first.append(len(at))
                if not s["meta"]:
                    ec.track(q)
                    q = ht.bunch(s["b"], c["ch"])
                list_ = q.extract_slices(sl, include_non_sliced="never")[::-1]
                for i, w in enumerate(list_):
                    # slices without interaction, some of them several steps long
                    long = s["long"][(i + 3 * ib) % 8] if s["meta"] else 0
                    nst = 1
                    if long:
                        w.slice_info["interact_with_EC"] = False
                        w.slice_info["z_bin_left"] = w.slice_info["z_bin_right"] - long * (w.slice_info["z_bin_right"] - w.slice_info["z_bin_left"]) * (1 - 1e-6)
                        dts = (w.slice_info["z_bin_right"] - w.slice_info["z_bin_left"]) / (w.beta * ht.C)
                        nst = int(np.ceil(dts / cfg["sim"]["Dt"])) if dts > cfg["sim"]["Dt"] else 1
                    if s["meta"]:
                        w.slice_info["info_parent_bunch"] = dict(i_bunch=ib)
                        w.slice_info["i_slice"] = i
                        v = q.extract_slices(sl, include_non_sliced="never")[::-1][i]
                        v.slice_info = dict(w.slice_info)
                        ec.track(v)
                    del_ = {k: w.slice_info[k] for k in ("z_bin_left", "z_bin_right", "z_bin_center", "interact_with_EC") if k in w.slice_info}
                    w.slice_info = del_
                    es.track(w)
                    a = rows(es)
                    dz = del_["z_bin_right"] - del_["z_bin_left"]
                    rec.append((a[6].sum(), 0.0 if long else w.macroparticlenumber * w.particlenumber_per_mp / dz,
                                a[6][np.hypot(a[0], a[1]) < cfg["sim"]["r_center"]].sum()))
                    at += [len(rec) - 1 if k == nst - 1 else -1 for k in range(nst)]
                    steps.append(dz / (w.beta * ht.C) / nst)
            es.finalize_and_reinitialize()
            want.append((np.array(rec), at, first, steps))
        files = sorted(f for f in os.listdir(".") if f.startswith("evol"))
        require(files == ["evol__iter%d.mat" % k for k in range(s["turns"])], lambda: "%d passages left the files %s" % (s["turns"], files))
        good = 0
        for k, f in enumerate(files):
            o = sio.loadmat(f)
            n = np.ravel(o["t"]).size
            W, at, first, steps = want[k]
            m = len(at) if not s["meta"] else first[-1] + 1      # written at the beginning of every passage of a bunch
            require(n == m, lambda: "%s holds %d steps, %d passed" % (f, n, m))
            at = np.array(at[:n])
            own = at >= 0
            for name, j, tol in (("Nel_timep", 0, 1e-7), ("lam_t_array", 1, 1e-9)):
                g, v = np.ravel(o[name])[own], W[at[own], j]
                require(np.all(np.abs(g - v) <= tol * np.abs(v).max(initial=0) + 1e-300), lambda: "%s of %s is %s, the slices say %s" % (name, f, g, v))
            t = np.ravel(o["t"])
            # a step of the cloud lasts as long as its slice, or its share of it
            d, e = [], -1
            for q in range(n - 1):
                e = at[q] if at[q] >= 0 else min(x for x in at[q:] if x >= 0) if np.any(at[q:] >= 0) else len(W) - 1
                d.append(steps[e])
            require(gen.close(np.diff(t), np.array(d), 1e-6), f + ": times are not a slice apart")
            th = np.ravel(o["t_hist"])
            wh = t[first] if s["meta"] else t[-1:]
            require(th.size == len(wh) and gen.close(th, wh, 1e-9), lambda: "%s: passages recorded at %s, they are at %s" % (f, th, wh))
            for name in ("N_mp_pass", "N_mp_impact_pass", "N_mp_corrected_pass", "N_mp_ref_pass"):
                require(np.ravel(o[name]).size == len(wh), lambda: "%s: %d values of %s for %d passages" % (f, np.ravel(o[name]).size, name, len(wh)))
            good += W[0, 0] > 0
    if good:
        return ["slice by slice" if s["meta"] else "whole", "turns%d" % s["turns"]]


class Monitor:
    def __init__(self):
        self.seen = []

    def dump(self, beam):
        self.seen.append(ht.state(beam))


EDGES = ["sizes", "sizes_slices", "clean_slices", "method", "long", "long_slice", "two_clouds", "savers", "first_only", "monitor", "keyword", "frozen_twin", "named"]


@check.sub("edges", st.tuples(spec, st.fixed_dictionaries(dict(what=st.sampled_from(EDGES), turns=st.integers(1, 3), B=fl(.01, 1.)))).map(lambda t: dict(t[0], **t[1])),
           quick=80, thorough=1500, shards=2, thorough_shards=4)
def edges(s):
    """What the element cannot do is refused before a particle is kicked; monitors and switches leave the kicks alone."""
    s = dict(s, sl=dict(s["sl"], charge=False))      # slices that do not depend on random numbers
    c, p, sl, dt = setup(s, sec=dict(model="perfect_absorber"), Dt=None)
    w = s["what"]
    if w == "method":
        c["Dt"] = 1.000001
    mode = w in ("sizes_slices", "clean_slices", "long_slice")
    with pye.TempDir():
        if w in ("long", "long_slice"):
            c["Dt"] = 0.8
        cfg = ht.config(c, dt)
        np.random.seed(c["seed"] % 2 ** 31)
        first = ht.state(p)

        def refused(f, err=ValueError):
            try:
                f()
            except err:
                return True
            return False
        if w in ("method", "two_clouds", "keyword"):
            kw = {}
            if w == "method":
                cfg["machine"].update(track_method="StrongBdip" if c["kick"] else "StrongBgen", B=s["B"], B_zero_thrhld=1e-13)
                cfg["machine"].pop("B_multip", None), cfg["machine"].pop("B_skew", None)
                if not c["kick"]:
                    cfg["machine"].update(B0x=s["B"], B0y=s["B"])
            elif w == "two_clouds":
                cfg["sim"].update(cloud_name="electron", additional_clouds_file_list=["ions.cloud"])
                cfg["clouds"]["ions.cloud"] = dict(cloud_mass=18 * bu.MP, cloud_charge=gen.E_CH, gas_ion_flag=0, photoem_flag=0, init_unif_flag=0, init_unif_edens_flag=0,
                                                   switch_model="perfect_absorber", logfile_path="./l2.txt", progress_path="./p2.txt")
            else:
                kw = {("x_beam_offset_", "enable_kick_z", "probe_position", "Dt_reff", "N_mp_maxx")[c["seed"] % 5]: 1.0}
            err = pye.input_parameters_format_specification.PyECLOUD_ConfigException if w == "keyword" else ValueError
            require(refused(lambda: ht.ecloud(c, cfg, dt, sl, bool(c["seed"] % 2), **kw), err), "an element with %s is accepted" % w)
            return "refused"
        kw = {}
        mon = Monitor()
        if w == "monitor":
            kw["beam_monitor"] = mon
        if w == "savers":
            kw.update(save_pyecl_outp_as="evol", logfile_path="log.txt", progress_path="progress.txt")
            cfg["sim"]["Dt"] = 1.000001 * dt
        if w == "clean_slices":
            kw["flag_clean_slices"] = True
        ec = ht.ecloud(c, cfg, dt, sl, mode, **kw)
        init = rows(ec)
        if mode:
            random.seed(0)
            list_ = p.extract_slices(sl, include_non_sliced="never")
            k = int(np.argmax([x.slice_info["z_bin_right"] - x.slice_info["z_bin_left"] for x in list_]))
            b = list_[k]
            before = ht.state(b)
            if w == "sizes_slices":
                b.particlenumber_per_mp = b.particlenumber_per_mp * np.ones(max(b.macroparticlenumber, 1))
            require(refused(lambda: ec.track(b)), "slices: %s is accepted" % w)
            require(np.array_equal(ht.state(b), before) and np.array_equal(rows(ec), init), "%s: refused, but bunch or cloud changed" % w)
            return "refused"
        if w == "long":
            require(refused(lambda: ec.track(p)), "slices longer than the time step interact")
            ix = p.get_slices(sl)
            longs = [i for i in range(ix.n_slices) if (ix.z_bins[i + 1] - ix.z_bins[i]) / (p.beta * ht.C) > cfg["sim"]["Dt"] * (1 + 1e-9)]
            o = np.argsort(p.id)
            rest = np.concatenate([ix.particle_indices_of_slice(i) for i in range(max(longs) + 1)]) if longs else []
            mask = np.isin(o, rest)
            require(np.array_equal(ht.state(p)[:, mask], first[:, mask]), "particles of refused slices and of those behind were kicked")
            return "refused"
        if w == "sizes":
            p.particlenumber_per_mp = p.particlenumber_per_mp * np.ones(p.macroparticlenumber)
            require(refused(lambda: ec.track(p)), "a bunch with unequal particles is accepted")
            require(np.array_equal(ht.state(p), first), "a refused bunch was kicked")
            return "refused"
        # ---- passages with the switch and without
        if w == "named":
            cfg["sim"]["cloud_name"] = "electron"
            np.random.seed(c["seed"] % 2 ** 31)
            ec = ht.ecloud(c, cfg, dt, sl, mode)
            cfg["sim"].pop("cloud_name")
        np.random.seed(c["seed"] % 2 ** 31)
        plain = ht.ecloud(c, cfg, dt, sl, False) if w != "savers" else None
        want = None
        if plain is not None:
            q = ht.bunch(s["b"], c["ch"])
            random.seed(0)
            plain.track(q)
            want = ht.state(q)
        if w == "savers":
            import os
            q = ht.bunch(s["b"], c["ch"])
            random.seed(0)
            ec.track(q)
            want = ht.state(q)
            files = sorted(os.listdir("."))
            ec.remove_savers()
        if w == "first_only":
            ec.track_only_first_time = True
        if w == "frozen_twin":
            ec.track_once_and_replace_with_recorded_field_map(ht.bunch(s["b"], c["ch"]), delete_ecloud_data=bool(c["seed"] % 2))
            require(refused(ec.generate_twin_ecloud_with_shared_space_charge), "a frozen cloud has a twin")
            return "refused"        # its kicks: C21
        kmax = np.abs(want - first)[[1, 3]].max()
        for turn in range(s["turns"]):
            q = ht.bunch(s["b"], c["ch"])
            random.seed(0)
            ec.track(q)
            got = ht.state(q)
            expect = first if w == "first_only" and turn else want
            require(np.abs(got - expect).max() <= 1e-9 * kmax + 1e-18, lambda: "%s, passage %d: kicks differ by %.3g of the largest" % (w, turn + 1, np.abs(got - expect).max() / (kmax + 1e-300)))
            if w == "monitor":
                require(len(mon.seen) == turn + 1 and np.array_equal(mon.seen[-1], got), "the monitor was not shown the bunch once, after the passage")
        if w == "savers":
            require(sorted(os.listdir(".")) == files, "files written after the savers were removed")
        if w == "first_only" and s["turns"] > 1:
            ec.save_ele_field = True
            ec.track_only_first_time = False
            ec.track(ht.bunch(s["b"], c["ch"]))
            ec.track_only_first_time = True
            ec.replace_with_recorded_field_map()
            q = ht.bunch(s["b"], c["ch"])
            random.seed(0)
            ec.track(q)
            q2 = ht.bunch(s["b"], c["ch"])
            ec.track(q2)
            require(np.array_equal(ht.state(q), ht.state(q2)) and (kmax == 0 or not np.array_equal(ht.state(q), first)), "the frozen cloud acts the first time only")
    if kmax > 0 and init.shape[1] >= 10:
        return [w]


# ------------------------------------------------------------------ electrons created by the bunch itself

@check.sub("seeds", st.tuples(spec, st.fixed_dictionaries(dict(photo=st.booleans(), gas=st.booleans(), u=st.sampled_from([0.0, 0.4, 0.0]), N=st.integers(300, 900), off=st.sampled_from([0, 0, 0, 1, 2, 5]), move=st.integers(0, 34),
                                                               start=st.booleans()))).map(lambda t: dict(t[0], **t[1])), quick=48, thorough=1500, shards=2, thorough_shards=4)
def seeds(s):
    """Every interacting slice creates its own electrons: in proportion to its charge, around its own centre (offset included), as wide as it is."""
    gas, photo = s["gas"] or not s["photo"], s["photo"]
    s = dict(s, b=dict(s["b"], gamma=max(s["b"]["gamma"], 20.0), ppb=1e5, wide=False, sx=.3 * s["b"]["sx"], sy=.3 * s["b"]["sy"], cx=.6 * s["b"]["cx"], cy=.6 * s["b"]["cy"]))
    c, p, sl, dt = setup(s, B=0.0, E0=1e-4, Dt=None, dens=1e6, ch=dict(kind="ellip", a=.02, b=.015) if photo else s["cl"]["ch"])
    if photo:
        p = ht.bunch(s["b"], c["ch"])
    if s["move"]:
        c["ox"], c["oy"] = .08 * (s["move"] % 7 - 3), .08 * (s["move"] % 5 - 2)
    X, Y = bu.half_size(c["ch"])
    ox, oy = ht.offsets(c)
    P, sig, T, Kpe = 1e5, 2.0, 300.0, 5e-2
    per = (P * 133.32e-9 / (1.380649e-23 * T) * sig * 1e-22, Kpe)      # electrons per metre and beam particle
    ntot = p.macroparticlenumber * p.particlenumber_per_mp
    ref = ntot * (per[0] * gas + per[1] * photo) / s["N"]
    labels = set()
    with pye.TempDir():
        cfg = ht.config(c, dt)
        cfg["sim"].update(nel_mp_ref_0=ref, N_mp_max=20000)
        m = cfg["machine"]
        m.update(t_ion=1.0, gas_ion_flag=int(gas), P_nTorr=P, sigma_ion_MBarn=sig, Temp_K=T, unif_frac=s["u"], E_init_ion=1e-4,
                 init_unif_flag=int(s["start"]), Nel_init_unif=30.4 * ref, E_init_unif=1e-4, x_max_init_unif=.4 * X, x_min_init_unif=-.4 * X, y_max_init_unif=.4 * Y, y_min_init_unif=-.4 * Y)
        if photo:
            m.update(photoem_flag=1, inv_CDF_refl_photoem_file="unif_no_file", k_pe_st=Kpe, refl_frac=.3, alimit=.05, e_pe_sigma=1e-4, e_pe_max=1e-4, x0_refl=X * .999, y0_refl=0.,
                     out_radius=4 * X, phem_resc_fac=.999, energy_distribution="gaussian", photoelectron_angle_distribution="cosine_3D")
        np.random.seed(c["seed"] % 2 ** 31)
        ec = ht.ecloud(c, cfg, dt, sl, True)
        mp = ec.cloudsim.cloud_list[0].MP_e
        init = rows(ec)
        for turn in range(1 + s["start"]):
            random.seed(0)
            list_ = p.extract_slices(sl, include_non_sliced="never")
            t = 0.0
            for k, w in enumerate(list_[::-1]):
                a0 = rows(ec)
                act = (s["off"] >> k) & 1 == 0
                w.slice_info["interact_with_EC"] = act
                n = w.macroparticlenumber
                dts = (w.slice_info["z_bin_right"] - w.slice_info["z_bin_left"]) / (w.beta * ht.C)
                x, y = np.array(w.x) + ox, np.array(w.y) + oy
                ec.track(w)
                t += dts
                what = "turn %d, slice %d" % (turn, k)
                a1 = rows(ec)
                N = n * p.particlenumber_per_mp * act
                want = [N * q / ref for on, q in zip((gas, photo), per) if on]
                got = a1.shape[1] - a0.shape[1]
                # nothing but uniformly distributed electrons can reach the wall in this time; every source rounds its number up or down
                far = s["u"] == 0.0 or not gas
                require(not (far or act) or abs(got - sum(want)) <= len(want) + 3e-3 * sum(want), lambda: "%s: %d macroparticles created, expected %.2f" % (what, got, sum(want)))
                require(not far or np.all(np.abs(a1[6] - ref) <= 1e-12 * ref), what + ": macroparticle of another size")
                move = 5e4 * t + 1e-6
                if act and n >= 2 and got > 60 and not photo:
                    # the macroparticles that were there before have hardly moved
                    old = np.zeros(a1.shape[1], bool)
                    old[:a0.shape[1]] = True
                    xn, yn = a1[0][~old], a1[1][~old]
                    sx, sy = x.std(), y.std()
                    ok, mar = gen.is_inside(c["ch"], np.array([x.mean()]), np.array([y.mean()]))
                    if ok[0] and mar[0] > 5 * max(sx, sy):
                        core = (np.abs(xn - x.mean()) < 6 * sx + move) & (np.abs(yn - y.mean()) < 6 * sy + move)
                        f = core.mean()
                        require(not (far or act) or f >= (1 - s["u"]) - 7 * np.sqrt(.25 / got), lambda: "%s: %.2f of the new electrons near the slice" % (what, f))
                        if s["u"] == 0.0:
                            require(f == 1.0, lambda: "%s: an electron is created 6 sigma away from the slice" % what)
                            for z, q, sg, name in ((xn, x, sx, "x"), (yn, y, sy, "y")):
                                require(abs(z.mean() - q.mean()) <= 7 * sg / np.sqrt(got) + move, lambda: "%s: new electrons at %s = %g, the slice at %g (sigma %g)" % (what, name, z.mean(), q.mean(), sg))
                                require(abs(z.std() - sg) <= 7 * sg / np.sqrt(2 * got) + move, lambda: "%s: new electrons as wide as %g in %s, the slice %g" % (what, z.std(), name, sg))
                            labels.add("gaussian")
                        else:
                            labels.add("with uniform part")
                        labels.add("offset" if abs(ox) + abs(oy) > 0 else "no offset")
                if photo and gas:
                    labels.add("both")
                if photo and got > 60:
                    labels.add("photoelectrons")
                if not act and n:
                    labels.add("slice that does not interact")
            ec.finalize_and_reinitialize()
            z = rows(ec)
            require(np.array_equal(z[:7], init[:7]), "after the passage the cloud is not as in the beginning: %d macroparticles, %d at first" % (z.shape[1], init.shape[1]))
            tot = list_[0]
            for w in list_[1:]:
                tot = tot + w
            p = tot
    return sorted(labels) or None

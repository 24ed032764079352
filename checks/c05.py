"""C05: what impacts_on_surface returns for a batch of impacts: charge, place, splitting, direction, energies."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen, sey
from vlib.harness import Check, require

check = Check("C05", rule="the batch contained an impact that emitted charge (or, for the absorber, any impact)",
              assumptions=["E_th >= 30 eV and a low-energy threshold of at least 2 eV, so that the code's rejection sampling ends",
                           "Furman-Pivi energy conservation is combined with Furman-Pivi energies only"])

surfaces = st.one_of(sey.uniform_models, sey.uniform_models, sey.nunif_strategy())
batch = surfaces.flatmap(lambda m: st.fixed_dictionaries(dict(
    m=st.just(m), n=st.one_of(st.integers(0, 3), st.integers(5, 60), st.integers(20, 60)), k=gen.seeds,
    elo=st.sampled_from([-2.0, 0.5, 2.0]), ehi=st.sampled_from([2.5, 4.0]), th=gen.logfl(0.02, 20.0), flag_seg=st.booleans(),
    heavy=st.sampled_from([1.0, 1.856e3, 1.836e3 * 18]))))


def make(spec):
    sey.no_sleep()
    m, n, r = spec["m"], spec["n"], gen.rng(spec["k"])
    segs, flag = None, spec["flag_seg"]
    if m["model"] == "nunif":
        ch, t = sey.nunif_chamber(m)
        mod = sey.nunif_build(m, ch)
        segs, flag = r.randint(0, ch.N_edg, n), True
    else:
        mod = sey.build(m)
        if flag:
            segs = r.randint(0, 30, n)
    mass = gen.M_E * spec["heavy"]
    E = 10 ** (spec["elo"] + (spec["ehi"] - spec["elo"]) * r.rand(n))
    c = np.where(r.rand(n) < .15, 1.0, r.rand(n))
    if m["model"] == "furman_pivi" and n:
        de, dr, _ = sey.fp_parts(m, E, c)
        k = de + dr < 0.99
        E, c = E[k], c[k]
        segs = None if segs is None else segs[k]
        n = len(E)
    nel = 10 ** (6 + 2 * r.rand(n))
    b = sey.impact_batch(r, n, E, c, mass=mass, nel=nel, segs=segs)
    b["v_impact_n"] = b["vx_impact"] * b["Norm_x"] + b["vy_impact"] * b["Norm_y"]
    return m, mod, b, n, flag, spec["th"] * 1e7


@check.sub("batch", batch, quick=12000, thorough=120000, shards=4, thorough_shards=8)
def batch_case(spec):
    m, mod, b, n, flag, th = make(spec)
    before = {k: np.copy(v) for k, v in b.items() if isinstance(v, np.ndarray)}
    o = sey.impacts(mod, b, nel_th=th, flag_seg=flag)
    for k, v in before.items():
        require(np.array_equal(b[k], v), "the input %s was modified" % k)
    fp, absorber = m["model"] == "furman_pivi", m["model"] == "perfect_absorber"
    tot = np.asarray(o["nel_emit_tot_events"], float)
    rep = {k: np.asarray(o[k + "_replace"], float) for k in ("nel", "x", "y", "z", "vx", "vy", "vz")}
    new = {k: np.atleast_1d(np.asarray(o[k + "_new_MPs"], float)) for k in ("nel", "x", "y", "z", "vx", "vy", "vz")}
    nn = len(new["nel"])
    for k in rep:
        require(rep[k].shape == (n,), "kept macroparticles: %d impacts, %d values of %s" % (n, rep[k].size, k))
        require(new[k].shape == (nn,), "new macroparticles: %d charges, %d values of %s" % (nn, new[k].size, k))
        require(np.all(np.isfinite(rep[k])) and np.all(np.isfinite(new[k])), "%s is not finite" % k)
    ev = np.asarray(o["event_type"]).astype(int)
    ext = np.asarray(o["event_info"]["extended_event_type"]).astype(int)
    require(tot.shape == (n,) and ev.shape == (n,), "one emitted charge and one event per impact")
    require(ext.shape == (n + nn,), "%d event types for %d macroparticles" % (ext.size, n + nn))
    require(np.array_equal(ext[:n], ev), "event types of the kept macroparticles")
    require(set(np.unique(ev)) <= set(mod.event_types), "unknown event type")
    # each new macroparticle belongs to the impact whose point it starts at
    key = {(x, y, z): i for i, (x, y, z) in enumerate(zip(b["x_impact"], b["y_impact"], b["z_impact"]))}
    par = np.array([key.get((x, y, z), -1) for x, y, z in zip(new["x"], new["y"], new["z"])], int)
    require(np.all(par >= 0), "a new macroparticle does not start at an impact point")
    alive = rep["nel"] > 0
    for k in "xyz":
        require(np.array_equal(rep[k][alive], b[k + "_impact"][alive]), "a kept macroparticle was displaced in " + k)
    # what is absorbed stays where it hit or is put between there and the axis, inside any chamber
    ab = ~alive
    s_ = rep["x"][ab] * b["x_impact"][ab] + rep["y"][ab] * b["y_impact"][ab]
    r2 = b["x_impact"][ab] ** 2 + b["y_impact"][ab] ** 2
    cr = rep["x"][ab] * b["y_impact"][ab] - rep["y"][ab] * b["x_impact"][ab]
    require(np.all(abs(cr) <= 1e-9 * r2) and np.all((s_ >= 0) & (s_ <= r2 * (1 + 1e-9))), "an absorbed macroparticle is put elsewhere")
    require(np.array_equal(ext[n:], ev[par]), "event type of a new macroparticle differs from its impact's")
    require(np.all(rep["nel"] >= 0) and np.all(new["nel"] >= 0), "negative charge")
    # charge per impact
    got = rep["nel"] + np.bincount(par, weights=new["nel"], minlength=n)[:n]
    require(gen.close(got, tot, 1e-12), lambda: "charge leaving the wall %r, reported %r" % (got[np.argmax(abs(got - tot))], tot[np.argmax(abs(got - tot))]))
    if absorber:
        require(np.all(tot == 0) and nn == 0, "the perfect absorber returns electrons")
        return m["model"] if n else None
    # segments
    if flag:
        s_new = np.atleast_1d(np.asarray(o["i_seg_new_MPs"]))
        require(np.array_equal(np.asarray(o["i_seg_replace"]), b["i_found"]), "segments of the kept macroparticles")
        require(s_new.shape == (nn,) and np.array_equal(s_new, b["i_found"][par]), "segments of the new macroparticles")
    # splitting
    cnt = np.bincount(par, minlength=n)[:n]
    if fp:
        k = np.rint(tot / b["nel_impact"])
        require(gen.close(k * b["nel_impact"], tot, 1e-12), "Furman-Pivi: emitted charge is not a whole number of macroparticles")
        require(np.array_equal(cnt, np.maximum(k - 1, 0).astype(int)), "Furman-Pivi: number of new macroparticles")
        require(np.array_equal(alive, k >= 1), "Furman-Pivi: macroparticles kept")
        require(np.all(new["nel"] == b["nel_impact"][par]) and np.all(rep["nel"][alive] == b["nel_impact"][alive]),
                "Furman-Pivi: size of the emitted macroparticles")
        require(np.all(k[ev == 1] <= m["fp"]["M_cut"]), "more secondaries than M_cut")
        require(np.all(k[(ev == 0) | (ev == 2)] == 1) and np.all(k[ev == 3] == 0), "events against number emitted")
        require(not (m["fp"]["exclude_rediffused"] and np.any(ev == 2)), "rediffused although excluded")
    else:
        require(np.all(cnt[ev == 0] == 0), "an elastically reflected macroparticle was split")
        tr = ev == 1
        want = np.maximum(np.ceil(tot / th) - 1, 0)
        near = np.abs(tot / th - np.rint(tot / th)) < 1e-9
        require(np.all((cnt == want)[tr & ~near]), lambda: "an impact emitting %g with splitting size %g gave %d new macroparticles" % (
            tot[tr & ~near & (cnt != want)][0], th, cnt[tr & ~near & (cnt != want)][0]))
        size = np.where(tr, tot / (cnt + 1), tot)
        require(np.all(size[tr] <= th * (1 + 1e-9)), "an emitted macroparticle is larger than the splitting size")
        require(gen.close(rep["nel"], size, 1e-12) and gen.close(new["nel"], size[par], 1e-12), "unequal shares of the emitted charge")
    # direction
    vn_r = rep["vx"] * b["Norm_x"] + rep["vy"] * b["Norm_y"]
    vn_n = new["vx"] * b["Norm_x"][par] + new["vy"] * b["Norm_y"][par]
    sp_r = np.sqrt(rep["vx"] ** 2 + rep["vy"] ** 2 + rep["vz"] ** 2)
    sp_n = np.sqrt(new["vx"] ** 2 + new["vy"] ** 2 + new["vz"] ** 2)
    require(np.all(vn_r[alive] >= -1e-9 * sp_r[alive]) and np.all(vn_n >= -1e-9 * sp_n), "an emitted electron moves into the wall")
    # energies
    q = 0.5 * b["mass"] / gen.E_CH
    Er, En = q * sp_r ** 2, q * sp_n ** 2
    Ei = b["E_impact_eV"]
    tol = 1 + 1e-9
    own = fp and not m["fp"]["use_ECLOUD_energy"]
    e = alive & (ev == 0)
    if own:
        require(np.all(Er[e] <= Ei[e] * tol), "a backscattered electron has more than the impact energy")
        require(np.all(Er[alive & (ev == 1)] <= Ei[alive & (ev == 1)] * tol) and np.all(En <= Ei[par] * tol),
                "a true secondary has more than the impact energy")
    else:
        require(gen.close(Er[e], Ei[e], 1e-9), "an elastically reflected electron changed its energy")
        require(gen.close(vn_r[e], -b["v_impact_n"][e], 1e-9, 1e-9 * np.max(sp_r, initial=0)), "reflection is not specular (normal velocity)")
        tx = rep["vx"] * -b["Norm_y"] + rep["vy"] * b["Norm_x"]
        ti = b["vx_impact"] * -b["Norm_y"] + b["vy_impact"] * b["Norm_x"]
        require(gen.close(tx[e], ti[e], 1e-9, 1e-9 * np.max(sp_r, initial=0)) and np.array_equal(rep["vz"][e], b["vz_impact"][e]),
                "reflection is not specular (tangential velocity)")
        for E_, i_ in ((Er[alive & (ev == 1)], np.flatnonzero(alive & (ev == 1))), (En, par)):
            cut = np.full(len(i_), m["E_th"])
            if m["switch"] == 2:
                cut = np.minimum(cut, Ei[i_])
                cut = np.where(Ei[i_] < m["thresh"], Ei[i_], cut)
            require(np.all(E_ <= cut * tol), lambda: "a true secondary has %g eV, allowed %g" % (E_[np.argmax(E_ / cut)], cut[np.argmax(E_ / cut)]))
    e = alive & (ev == 2) & fp
    require(np.all(Er[e] <= Ei[e] * tol), "a rediffused electron has more than the impact energy")
    if own and m["fp"]["conserve_energy"]:
        tr = alive & (ev == 1)
        S = Er + np.bincount(par, weights=En, minlength=n)[:n]
        two = tr & (cnt == 1)
        require(np.all(S[two] <= Ei[two] * tol), "two secondaries have more energy than their impact")
        many = tr & (cnt > 1)
        require(np.all(Er[par] + En <= Ei[par] * tol), "the first and another secondary have more energy than their impact")
        if np.any(S[many] > Ei[many] * tol):
            from vlib.harness import Violation
            raise Violation("three or more secondaries of one impact have more energy than the impact", known="K05a")
    return (m["model"] + ("+charging" if m.get("charging") else "")) if np.any(tot > 0) else None

"""C23: surfaces whose segments carry their own emission or charging properties."""
import numpy as np
from hypothesis import strategies as st

from vlib import buildup as bu, pye, gen, sey, impact
from vlib.harness import Check, require, Violation

check = Check("C23", rule="impacts on at least two segments with different properties, or a chargeable segment that was hit",
              assumptions=["which impacts are reflected is random: compared per segment with 7 standard deviations"])

E_CH = gen.E_CH


def law(m, t, seg, E, c):
    dm, R0, Em = sey.nunif_resolved(m, t)
    tr = sey.true_law(E, c, Em[seg], dm[seg], 1.35)
    el = sey.elastic_law(E, R0[seg], m["E0"])
    return el, tr


def impacts(r, ch, n, elo=0.0, ehi=3.5):
    E = 10 ** (elo + (ehi - elo) * r.rand(n))
    c = r.rand(n)
    seg = r.randint(0, ch.N_edg, n)
    nel = 10 ** (3 + 6 * r.rand(n))
    return sey.impact_batch(r, n, E, c, nel=nel, segs=seg)


two = st.fixed_dictionaries(dict(a=sey.nunif_strategy(False), b=sey.nunif_strategy(False), seed=gen.seeds,
                                 n=st.one_of(st.integers(0, 3), st.integers(10, 400)), file=st.booleans()))


@check.sub("segment-yields", two, quick=1000, thorough=30000)
def segment_yields(spec):
    """Two clouds with different defaults (and laws) on one shared chamber."""
    sey.no_sleep()
    a, b = spec["a"], dict(spec["b"], chamb=spec["a"]["chamb"], seed=spec["a"]["seed"])
    r = gen.rng(spec["seed"])
    ch, t = sey.nunif_chamber(a)
    if spec["file"]:
        import scipy.io as sio
        with pye.TempDir():
            sio.savemat("c.mat", {k: v for k, v in ch.dict_chm.items()})
            ch = pye.geom_impact_poly_fast_impact.polyg_cham_geom_object("c.mat", True, flag_assume_convex=a["chamb"]["kind"] == "convex")
    ma, mb = sey.nunif_build(a, ch), sey.nunif_build(b, ch)
    lab = None
    order = [(a, ma), (b, mb), (a, ma)]
    for m, mod in order:
        bt = impacts(r, ch, spec["n"])
        el, tr = law(m, t, bt["i_found"], bt["E_impact_eV"], bt["costheta_impact"])
        o = sey.impacts(mod, bt, flag_seg=True)
        y = o["nel_emit_tot_events"] / bt["nel_impact"]
        bad = np.abs(y - el - tr) > 1e-9 * (el + tr) + 1e-12
        require(not bad.any(), lambda: "yield %r on segment %d at E=%g cos=%g, expected %r (table del_max %r R0 %r Emax %r, defaults %r %r %r)" % (
            y[bad][0], bt["i_found"][bad][0], bt["E_impact_eV"][bad][0], bt["costheta_impact"][bad][0], (el + tr)[bad][0],
            t["del_max"][bt["i_found"][bad][0]], t["R0"][bt["i_found"][bad][0]], t["Emax"][bt["i_found"][bad][0]], m["del_max"], m["R0"], m["Emax"]))
        for s in range(ch.N_edg):
            k = bt["i_found"] == s
            p = np.clip((el / np.maximum(el + tr, 1e-300))[k], 0, 1)
            got = np.sum(np.asarray(o["event_type"])[k].astype(int) == 0)
            require(abs(got - p.sum()) <= 7.5 * np.sqrt((p * (1 - p)).sum()) + 9, lambda: "segment %d: %d of %d reflected, expected %.1f" % (s, got, k.sum(), p.sum()))
        if spec["n"] > 5:
            lab = "file" if spec["file"] else "dict"
    return lab


op = st.one_of(st.fixed_dictionaries(dict(op=st.just("impact"), n=st.integers(0, 30), elo=gen.fl(0, 2), w=gen.fl(0, 2), scale=gen.logfl(1, 1e8), seed=gen.seeds)),
               st.fixed_dictionaries(dict(op=st.just("evolve"), Dt=gen.logfl(1e-9, 1e-3))),
               st.fixed_dictionaries(dict(op=st.just("one"), seg=st.integers(0, 23), scale=gen.logfl(1e4, 1e10), E=gen.logfl(1, 2000))))
hist = st.fixed_dictionaries(dict(m=sey.nunif_strategy(True), two=st.booleans(), ops=st.lists(op, min_size=1, max_size=12)))


@check.sub("charging", hist, quick=1200, thorough=40000, shards=2)
def charging(spec):
    sey.no_sleep()
    m = spec["m"]
    ch, t = sey.nunif_chamber(m)
    N = ch.N_edg
    Vx, Vy = gen.chamber_vertices(m["chamb"])
    L = np.hypot(np.roll(Vx, -1) - Vx, np.roll(Vy, -1) - Vy)
    models = [sey.nunif_build(m, ch)] + ([sey.nunif_build(m, ch)] if spec["two"] else [])
    Q = [np.zeros(N) for _ in models]
    flag, Qmax, EQ, tau = t["flag"], t["Qmax"], t["EQ"], t["tau"]
    hit = False
    for i, o in enumerate(spec["ops"]):
        w = i % len(models)
        mod = models[w]
        require(gen.close(mod.Q_segments, Q[w], 1e-9, 1e-12 * np.max(np.abs(Q[w]), initial=0) + 1e-40), lambda: "charge on the segments %r, expected %r" % (mod.Q_segments, Q[w]))
        require(np.all(mod.Q_segments[~flag] == 0), "a segment that cannot be charged carries charge")
        if o["op"] == "evolve":
            mod.SEY_model_evol(Dt=o["Dt"])
            Q[w] = np.where(flag & (tau > 0), Q[w] * np.exp(-o["Dt"] / np.where(tau > 0, tau, 1)), Q[w])
            continue
        if o["op"] == "one":
            r = gen.rng(i)
            b = impacts(r, ch, 1)
            b = sey.impact_batch(r, 1, np.array([o["E"]]), np.array([0.7]), nel=np.array([o["scale"]]), segs=np.array([o["seg"] % N]))
        else:
            r = gen.rng(o["seed"])
            b = impacts(r, ch, o["n"], o["elo"], o["elo"] + o["w"])
            b["nel_impact"] = b["nel_impact"] * o["scale"] * 1e-6
        s = b["i_found"]
        el, tr = law(m, t, s, b["E_impact_eV"], b["costheta_impact"])
        y = el + tr
        q = np.clip(Q[w], 0, np.where(flag, Qmax, 1))[s] / np.where(flag, Qmax, 1)[s]
        yq = np.where(flag[s], y * (1 - q) + (1 - np.exp(-b["E_impact_eV"] / np.where(flag, EQ, 1)[s])) * q, y)
        out = sey.impacts(mod, b, flag_seg=True)
        got = out["nel_emit_tot_events"] / b["nel_impact"]
        bad = np.abs(got - yq) > 1e-8 * np.maximum(y, 1) * 1.0
        require(not bad.any(), lambda: "yield %r on segment %d with stored charge %r (limit %r, chargeable %r), expected %r" % (
            got[bad][0], s[bad][0], Q[w][s[bad][0]], Qmax[s[bad][0]], flag[s[bad][0]], yq[bad][0]))
        net = np.bincount(s, weights=b["nel_impact"] - out["nel_emit_tot_events"], minlength=N)
        hit = hit or bool(np.any(flag[s]))
        Q[w] = Q[w] + np.where(flag, -net * E_CH / L, 0)
    for w, mod in enumerate(models):
        require(gen.close(mod.Q_segments, Q[w], 1e-9, 1e-12 * np.max(np.abs(Q[w]), initial=0) + 1e-40), lambda: "charge on the segments %r, expected %r" % (mod.Q_segments, Q[w]))
    return ("two clouds" if spec["two"] else "one cloud") if hit else None


e2e = st.fixed_dictionaries(dict(m=sey.nunif_strategy(), seed=gen.seeds, n=st.integers(5, 300)))


@check.sub("tests-do-not-charge", st.fixed_dictionaries(dict(m=sey.nunif_strategy(charging=True), q=gen.fl(0, 1.5), seed=gen.seeds,
           E=st.lists(gen.logfl(1, 2000), min_size=1, max_size=3), ene=st.booleans())), quick=200, thorough=5000)
def no_test_charge(s):
    """Extracting the yield curves (done at set-up by default) is no bombardment: the stored charge stays, and acts in the curves."""
    sey.no_sleep()
    m = s["m"]
    r = gen.rng(s["seed"])
    ch, t = sey.nunif_chamber(m)
    mod = sey.nunif_build(m, ch)
    mod.Q_segments[:] = np.where(t["flag"], s["q"] * t["Qmax"] * r.rand(ch.N_edg), 0.0)
    Q = mod.Q_segments.copy()
    im = pye.impact_management_class.impact_management(ch, mod, ch.x_aper / 20, 20, 10, 100, flag_seg=True)
    if s["ene"]:
        im.extract_energy_distributions(50, s["E"][0], np.array([0.5]), gen.M_E, 20, 1.5)
    cos = np.array([0.3, 1.0])
    d = im.extract_sey_curves(2000, np.array(s["E"]), cos, -gen.E_CH, gen.M_E)
    require(np.array_equal(mod.Q_segments, Q), "extracting the yield curves changed the charge on the segments")
    tot = sum(d.values())
    q = float(np.clip(Q[1] / t["Qmax"][1], 0, 1)) if t["flag"][1] else 0.0
    for i, c in enumerate(cos):
        el, tr = law(m, t, np.ones(len(s["E"]), int), np.array(s["E"]), np.full(len(s["E"]), c))
        y = (el + tr) * (1 - q) + ((1 - np.exp(-np.array(s["E"]) / t["EQ"][1])) * q if t["flag"][1] else 0.0)
        require(np.all(np.abs(tot[i] - y) <= 1e-9 * y + 1e-12), lambda: "extracted yields %r, expected %r" % (tot[i], y))
    return "charged" if q else "not charged"


@check.sub("hit-segment", e2e, quick=600, thorough=20000)
def hit_segment(spec):
    """From the displacement to the emitted charge: the properties used are those of the segment that geometry says was hit."""
    sey.no_sleep()
    m = spec["m"]
    c = m["chamb"]
    ch, t = sey.nunif_chamber(m)
    mod = sey.nunif_build(m, ch)
    r = gen.rng(spec["seed"])
    S = max(ch.x_aper, ch.y_aper)
    im = pye.impact_management_class.impact_management(ch, mod, ch.x_aper / 20, 20, 10, 100, flag_seg=True)
    mp = impact.system(ch, 1e6, fsplit=1e9)
    dt = 1e-9
    lv = np.log10(S / dt)
    impact.fill(mp, c, r, spec["n"], 1e-6, logv=(lv - 1, lv + 0.5))
    n = int(mp.N_mp)
    old = impact.drift(mp, dt)
    b = impact.rows(mp)
    ins, marg = gen.is_inside(c, b[0], b[1])
    hit = ~ins
    if not hit.any() or np.any(marg < 1e-12 * S):
        return None
    x0, y0 = old.x_mp[hit], old.y_mp[hit]
    tt, idx, nearv = gen.first_crossing(c, x0, y0, b[0][hit], b[1][hit])
    Vx, Vy = gen.chamber_vertices(c)
    N = len(Vx)
    for k in range(N):
        if np.any(gen.seg_dist(Vx[k], Vy[k], x0, y0, b[0][hit], b[1][hit]) < 1e-9 * S):
            return None
    ex, ey = np.roll(Vx, -1) - Vx, np.roll(Vy, -1) - Vy
    L = np.hypot(ex, ey)
    nx, ny = (-ey / L)[idx], (ex / L)[idx]
    v2 = (b[3:6, hit] ** 2).sum(0)
    E = 0.5 * gen.M_E * v2 / E_CH
    cos = np.abs(b[3][hit] * nx + b[4][hit] * ny) / np.sqrt(v2)
    el, tr = law(m, t, idx, E, cos)
    W = b[6][hit]
    im.backtrack_and_second_emiss(old, mp, 1e-6)
    em = np.bincount(idx, weights=W * (el + tr), minlength=N)
    require(gen.close(im.nel_hist_impact_seg, np.bincount(idx, weights=W, minlength=N), 1e-9), "charge impacting on each segment")
    require(gen.close(im.nel_hist_emit_seg, em, 1e-7), lambda: "charge emitted by each segment %r, expected %r" % (im.nel_hist_emit_seg, em))
    if m["charging"]:
        Q = np.where(t["flag"], -(np.bincount(idx, weights=W, minlength=N) - em) * E_CH / L, 0)
        require(gen.close(mod.Q_segments, Q, 1e-6, 1e-9 * np.max(np.abs(Q), initial=0)), "charge deposited on the segments")
    return "charging" if m["charging"] else "plain"


def emission(m):
    return dict(Emax=m["Emax"], del_max=m["del_max"], R0=m["R0"], E_th=m["E_th"], sigmafit=m["sigmafit"], mufit=m["mufit"],
                switch_model="ECLOUD_nunif_charging" if m["charging"] else "ECLOUD_nunif", switch_no_increase_energy=m["switch"],
                thresh_low_energy=m["thresh"], secondary_angle_distribution=m["angle"])


def simulation_of(ms, two, e0, d):
    """Configuration of a simulation with these surfaces."""
    X = float(np.max(np.abs(d["Vx"])))
    mach = dict(chamb_type="polyg", filename_chm="chamber.mat", flag_assume_convex=ms[0]["chamb"]["kind"] == "convex", track_method="Boris",
                B0x=0.0, B0y=0.0, B0z=0.0, N_sub_steps=1)
    zero = dict(xx=np.linspace(-2 * X, 2 * X, 4), yy=np.linspace(-2 * X, 2 * X, 4), Ex=np.zeros((4, 4)), Ey=np.zeros((4, 4)))
    cfg = dict(sim=bu.base_sim(Dh_sc=X / 5, Dx_hist=X / 7), machine=mach, secem=dict(bu.base_secem(), **emission(ms[0])),
               beam=bu.base_beam(beam_field_file="zero.mat"), mats={"chamber.mat": d, "zero.mat": zero}, clouds={}, sec_beams={})
    if e0:
        cfg["secem"]["E0"] = ms[0]["E0"]
    if two:
        cfg["sim"].update(cloud_name="first", additional_clouds_file_list=["second.cloud"])
        cfg["clouds"]["second.cloud"] = dict(emission(ms[1]), E0=ms[1]["E0"], cloud_mass=gen.M_E, cloud_charge=-E_CH, init_unif_flag=0,
                                             init_unif_edens_flag=0, gas_ion_flag=0, photoem_flag=0, logfile_path="./l2.txt", progress_path="./p2.txt")
    return cfg


@check.sub("configured", st.fixed_dictionaries(dict(a=sey.nunif_strategy(), b=sey.nunif_strategy(), two=st.booleans(), e0=st.booleans(), seed=gen.seeds)),
           quick=40, thorough=1500, shards=2)
def configured(s):
    """Simulations set up from input files: the surface of every cloud behaves as one built directly from the values meant for it."""
    sey.no_sleep()
    ms = [dict(s["a"]), dict(s["b"], chamb=s["a"]["chamb"], seed=s["a"]["seed"], charging=s["a"]["charging"])]
    if not s["e0"]:
        ms[0]["E0"] = 150.0
    # a second cloud takes over what it does not set itself
    d, t = sey.nunif_tables(ms[0])
    with pye.TempDir():
        cfg = simulation_of(ms, s["two"], s["e0"], d)
        sim = bu.make(cfg)
        ch, _ = sey.nunif_chamber(ms[0])
        r = gen.rng(s["seed"])
        for k, cl in enumerate(sim.cloud_list):
            m = ms[k]
            ref = sey.nunif_build(m, ch)
            mod = cl.impact_man.sey_mod
            if m["charging"]:
                Q = -1e-7 * r.rand(len(d["Vx"])) * t["flag"]
                mod.Q_segments, ref.Q_segments = Q.copy(), Q.copy()
            b = sey.impact_batch(r, 60, 10 ** (3.5 * r.rand(60)), r.rand(60) * .98 + .01, mass=gen.M_E)
            b["i_found"] = r.randint(0, len(d["Vx"]), 60)
            out = []
            for o in (mod, ref):
                np.random.seed(s["seed"] % 2 ** 31)
                out.append(sey.impacts(o, {q: np.array(v) if isinstance(v, np.ndarray) else v for q, v in b.items()}, 0.7))
            for q in out[1]:
                if isinstance(out[1][q], dict):
                    continue
                x, y = np.asarray(out[0][q]), np.asarray(out[1][q])
                require(x.shape == y.shape and (x.dtype.kind not in "fiu" or np.allclose(x, y, rtol=1e-11, atol=0)),
                        lambda: "cloud %d: %s differs from that of the configured surface" % (k, q))
    return ["charging" if ms[0]["charging"] else "plain", "clouds%d" % len(sim.cloud_list)]


@check.sub("simulation", st.fixed_dictionaries(dict(a=sey.nunif_strategy(True), b=sey.nunif_strategy(True), two=st.booleans(), seed=gen.seeds, E0=gen.logfl(50, 2000),
                                                    n=st.integers(20, 120), unif=st.booleans(), steps=st.integers(6, 14), w=gen.logfl(1e3, 1e7))), quick=40, thorough=1200, shards=2)
def simulation(s):
    """In a run: at every step each cloud's surface takes up what its own impacts leave on it, then loses what conduction removes in that step."""
    sey.no_sleep()
    ms = [dict(s["a"]), dict(s["b"], chamb=s["a"]["chamb"], seed=s["a"]["seed"])]
    d, t = sey.nunif_tables(ms[0])
    N = len(d["Vx"])
    L = np.hypot(np.roll(d["Vx"], -1) - d["Vx"], np.roll(d["Vy"], -1) - d["Vy"])
    X, Y = float(np.max(np.abs(d["Vx"]))), float(np.max(np.abs(d["Vy"])))
    cfg = simulation_of(ms, s["two"], True, d)
    Dt = 0.15 * min(X, Y) / np.sqrt(2 * s["E0"] * E_CH / gen.M_E)
    cfg["sim"].update(Dt=Dt, nel_mp_ref_0=s["w"], N_mp_max=50000, t_sc_ON=1e3)
    cfg["beam"].update(b_spac=s["steps"] * Dt, filling_pattern_file=[1.0, 0.0, 0.0], sigmaz=2 * Dt * gen.C_L, t_offs=5 * Dt)
    if not s["unif"]:
        r = gen.rng(s["seed"])
        tt = np.concatenate([[0], np.cumsum(Dt * (0.3 + 1.4 * r.rand(3 * s["steps"])))])
        cfg["mats"]["prof.mat"] = dict(t=tt, lam_t_array=np.ones(len(tt)))
        cfg["beam"].update(flag_bunched_beam=0, beam_long_prof_file="prof.mat", fact_beam=1.0)
    box = dict(init_unif_flag=1, Nel_init_unif=s["w"] * s["n"], E_init_unif=s["E0"], x_max_init_unif=X, x_min_init_unif=-X, y_max_init_unif=Y, y_min_init_unif=-Y)
    cfg["machine"].update(box)
    if s["two"]:
        cfg["clouds"]["second.cloud"].update(box)
    with pye.TempDir():
        np.random.seed(s["seed"])
        sim = bu.make(cfg)
        net = [np.zeros(N) for _ in sim.cloud_list]

        def watch(k, mod):
            real = mod.impacts_on_surface

            def f(*a, **kw):
                out = real(*a, **kw)
                nel = kw["nel_impact"] if "nel_impact" in kw else a[1]
                seg = kw["i_found"] if "i_found" in kw else a[10]
                net[k] += np.bincount(seg, weights=nel - out[0], minlength=N)
                return out
            mod.impacts_on_surface = f
        for k, cl in enumerate(sim.cloud_list):
            watch(k, cl.impact_man.sey_mod)
        Q = [np.zeros(N) for _ in sim.cloud_list]
        drv = bu.Stepper(sim)
        charged = [0] * len(Q)
        while not drv.done():
            for q in net:
                q[:] = 0
            drv.step()
            h = sim.beamtim.Dt_curr
            for k, cl in enumerate(sim.cloud_list):
                q = Q[k] + np.where(t["flag"], -net[k] * E_CH / L, 0)
                q = np.where(t["flag"] & (t["tau"] > 0), q * np.exp(-h / np.where(t["tau"] > 0, t["tau"], 1)), q)
                got = np.array(cl.impact_man.sey_mod.Q_segments)
                sc = np.max(np.abs(q), initial=0)
                require(np.all(np.abs(got - q) <= 1e-10 * np.abs(q) + 1e-13 * sc), lambda: "cloud %d, step %d: charge on the segments %r, expected %r" % (k, drv.i, got, q))
                Q[k] = got
                charged[k] += bool(np.any(Q[k][t["flag"]] != 0) and np.any(t["tau"][t["flag"]] > 0))
            if any(cl.MP_e.N_mp > 8000 for cl in sim.cloud_list):
                break
    if min(charged) >= 3:
        return ["clouds%d" % len(Q), "unif" if s["unif"] else "nonunif"]


@check.sub("needs-polygon", gen.chambers(("ellip",)), quick=6, thorough=20, thorough_shards=1)
def refuse(c):
    ch = gen.build_chamber(c)
    for k in ("SEY_model_ECLOUD_non_unif", "SEY_model_ECLOUD_non_unif_charging"):
        try:
            getattr(pye.sec_emission_model_ECLOUD_nunif, k)(ch, 300., 1.5, .7, secondary_angle_distribution="cosine_3D")
        except ValueError:
            continue
        raise Violation("per-segment emission accepted for a chamber without segments")
    return "refused"

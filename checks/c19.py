"""C19: build-up runs step by step: charge balance, motion of every macroparticle, schedule of cleaning, equivalences between runs."""
import numpy as np
from hypothesis import strategies as st
from scipy.spatial import cKDTree

from vlib import buildup as bu, dyn, gen, impact, params, pye
from vlib.harness import Check, require

fl, logfl = gen.fl, gen.logfl
QE = gen.E_CH

check = Check("C19", rule="a case is non-trivial when at least five steps with ten or more macroparticles were judged (and, for the balance, some hit the wall or were created)",
              assumptions=["in the motion part the electric field at a particle is the one the beam and space-charge objects report at its position (their own correctness: C10, C11, C12)",
                           "positions within 1e-9 of the chamber size from the wall may count as in or out",
                           "full regeneration preserves the charge on average only; its size, weights and schedule are judged here, the rest in C01",
                           "equivalent runs are compared to 1e-6 of the chamber size and of the largest velocity, as rounding differences grow along trajectories"])


class Parts:
    """Something to ask fields for."""

    def __init__(self, x, y, charge, mass, nel=None):
        self.N_mp = len(x)
        self.x_mp, self.y_mp = np.array(x), np.array(y)
        self.nel_mp = np.ones(len(x)) if nel is None else np.array(nel)
        self.charge, self.mass = charge, mass
        self.vx_mp = self.vy_mp = self.vz_mp = self.z_mp = np.zeros(len(x))


def put(cloud, a):
    """Replaces the content of a cloud by the rows a (x y z vx vy vz nel [t])."""
    m = cloud.MP_e
    m.N_mp = 0
    m.nel_mp[:] = 0.0
    n = a.shape[1]
    if n:
        m.add_new_MPs(n, *(a[k].copy() for k in (6, 0, 1, 2, 3, 4, 5)), t_last_impact=-1.0)


def field(sim, p, em):
    """Electric and magnetic field of clouds and beams at the positions of p."""
    n = p.N_mp
    one = np.ones(n)
    if em:
        f = [one * q for q in sim.spacech_ele.get_sc_em_field(p)]
    else:
        f = [one * q for q in sim.spacech_ele.get_sc_eletric_field(p)] + [0 * one] * 3
    for b in [sim.beamtim] + list(sim.sec_beams_list if sim.flag_presence_sec_beams else []):
        ex, ey = b.get_beam_eletric_field(p)
        f[0], f[1] = f[0] + ex, f[1] + ey
    return np.array([f[0], f[1], 0 * one]), np.array(f[2:])


def external(cfg, name, track):
    """Magnetic field seen by the clouds as a function of position; None for the dipole tracker."""
    m = cfg["machine"]
    if track == "Boris":
        return lambda x, y: np.array([0 * x + m.get("B0x", 0.0), 0 * x + m.get("B0y", 0.0), 0 * x + m.get("B0z", 0.0)])
    if track == "BorisMultipole":
        def B(x, y):
            bx, by = dyn.multipole_field(m["B_multip"], m.get("B_skew") or [0.0], x, y)
            return np.array([bx, by, 0 * x])
        return B


def configure(s):
    s = dict(s, steps=min(s["steps"], 14))
    if s["em"]:
        s.update(track="BorisMultipole", dtsc=s["dtsc"] or 1.0)
    if s["prof"] == "nonunif" and s["track"] == "StrongBdip":
        s["track"] = "Boris"
    s.update(dec=1, every=1)
    cfg = bu.config(s)
    sim, b = cfg["sim"], cfg["beam"]
    Dt = sim["Dt"]
    if s["reinterp"] and s["track"] != "StrongBdip":
        sim["flag_reinterp_fields_at_substeps"] = True
    if s["prof"]:
        t = bu.time_axis(cfg)
        r = gen.rng(s["seed"] + 1)
        d = Dt * (r.choice([1.0, 0.5, 1.5, 0.3], len(t) - 1) if s["prof"] == "nonunif" else np.ones(len(t) - 1))
        if s["prof"] == "nonunif":
            d[0], d[-1] = Dt, 1.5 * Dt
        t = np.concatenate([[0.], np.cumsum(d)])
        cfg["mats"]["prof.mat"] = dict(t=t, lam_t_array=s["ppb"] / (4 * Dt * gen.C_L) * r.rand(len(t)) ** 3)
        b.update(flag_bunched_beam=0, beam_long_prof_file="prof.mat", fact_beam=1.0)
        if s["track"] != "StrongBdip":
            cfg["machine"]["N_sub_steps"] = s["nsub"]
    elif s["two"]:
        sim["secondary_beams_file_list"] = ["two.beam"]
        cfg["sec_beams"]["two.beam"] = dict(b, t_offs=b["t_offs"] * 0.6 + 0.7 * Dt, fact_beam=0.6 * b["fact_beam"], x_beam_pos=0.0)
    return s, cfg


step_spec = bu.with_(em=st.sampled_from([False, False, False, True]), prof=st.sampled_from([None, None, None, "unif", "nonunif"]),
                     two=st.booleans(), reinterp=st.booleans(), pattern=st.lists(st.sampled_from([1.0, 0.5, 0.0]), min_size=1, max_size=3),
                     nmp=st.integers(30, 300))


def margin(c):
    X, Y = bu.half_size(c)
    return 1e-9 * max(X, Y)


def predict(sim, cfg, s, cloud, a, fields_before):
    """Where the macroparticles a (rows before the step) are after the motion of this step: (x, v), and the scale of the velocities."""
    m = cloud.MP_e
    qm = m.charge / m.mass
    x, v = a[:3].copy(), a[3:6].copy()
    Dt = sim.beamtim.Dt_curr
    main = cloud is sim.cloud_list[0]
    E, B = fields_before
    if s["track"] == "StrongBdip":
        tr = pye.dynamics_dipole.pusher_dipole_magnet(Dt, cfg["machine"]["B"])
        p = dyn.cloud(a.shape[1], 0, gen.rng(0), 1.0, m.mass, m.charge)
        for k, c in enumerate(dyn.ALL):
            getattr(p, c)[:] = a[k]
        tr.step(p, E[0], E[1])
        q = dyn.snap(p)
        return q[:3], q[3:], np.abs(v).max(0) + np.abs(qm * Dt * E).max(0)
    nsub = cfg["machine"].get("N_sub_steps", 1) if main else 1
    if s["prof"] == "nonunif":
        nsub = max(int(np.round(Dt / (cfg["sim"]["Dt"] / nsub))), 1)
    ext = external(cfg, cloud.name, s["track"])
    scale = np.abs(v).max(0) + np.abs(qm * Dt * E).max(0)
    if not cfg["sim"].get("flag_reinterp_fields_at_substeps"):
        x, v = dyn.boris(x, v, E, lambda p, q: ext(p, q) + B, qm, Dt / nsub, nsub)
        return x, v, scale
    for k in range(nsub):
        if k:
            E, B = sim.ask(x[0], x[1], m)
        x, v = dyn.boris(x, v, E, lambda p, q: ext(p, q) + B, qm, Dt / nsub, 1)
    return x, v, scale


class Frozen:
    """Asks a simulation for the fields of the step that is about to happen."""

    def __init__(self, sim, em):
        self.sim, self.em = sim, em
        self.beams = [sim.beamtim] + list(sim.sec_beams_list if sim.flag_presence_sec_beams else [])

    def __call__(self, i, x, y, m):
        old = [b.lam_t_curr for b in self.beams]
        for b in self.beams:
            b.lam_t_curr = float(b.lam_t_array[i])
        f = field(self.sim, Parts(x, y, m.charge, m.mass), self.em)
        for b, o in zip(self.beams, old):
            b.lam_t_curr = o
        return f


def find(a, b, scale, tol):
    """For every column of a the column of b that equals it within tol*scale; -1 where none does."""
    if a.shape[1] == 0:
        return np.zeros(0, int)
    if b.shape[1] == 0:
        return np.full(a.shape[1], -1)
    sc = np.asarray(scale)[:, None]
    t = cKDTree((b / sc).T)
    d, i = t.query((a / sc).T, p=np.inf)
    return np.where(d <= tol, i, -1)


@check.sub("steps", step_spec, quick=110, thorough=4000, shards=4, thorough_shards=8)
def steps(s):
    """Every step: motion, impacts, charge balance, primaries, cleaning schedule, containment."""
    s, cfg = configure(s)
    S = cfg["sim"]
    c = s["ch"]
    X, Y = bu.half_size(c)
    pre = {}
    with pye.TempDir():
        np.random.seed(s["seed"] % 2 ** 31)
        sim = bu.make(cfg, step_by_step_custom_observables={
            "look": lambda q: pre.setdefault("s", ([impact.rows(cl.MP_e) for cl in q.cloud_list], [cl.MP_e.nel_mp_ref for cl in q.cloud_list])) and 0.0})
        rec = []
        for cl in sim.cloud_list:
            rec.append(impact.Recorder(cl.impact_man.sey_mod))
            cl.impact_man.sey_mod = rec[-1]
        ask = Frozen(sim, s["em"])
        sp = bu.Stepper(sim)
        judged, labels, hit, born = 0, set(), 0, 0
        while not sp.done() and sp.i < 60:
            i = sp.i + 1
            before = [impact.rows(cl.MP_e) for cl in sim.cloud_list]
            ref0 = [cl.MP_e.nel_mp_ref for cl in sim.cloud_list]
            th0 = [cl.MP_e.nel_mp_cl_th for cl in sim.cloud_list]
            tnext = float(sim.beamtim.t[i])
            Dt = float(sim.beamtim.t[i + 1] - sim.beamtim.t[i])
            want = []
            for cl, a in zip(sim.cloud_list, before):
                if a.shape[1] == 0:
                    want.append(None)
                    continue
                sim.beamtim.Dt_curr, keep = Dt, getattr(sim.beamtim, "Dt_curr", None)
                sim.ask = lambda x, y, m: ask(i, x, y, m)
                want.append(predict(sim, cfg, s, cl, a, ask(i, a[0], a[1], cl.MP_e)))
                sim.beamtim.Dt_curr = keep
            pre.clear()
            for q in rec:
                q.calls.clear()
            if not sp.step():
                break
            if "s" not in pre:
                # a step that is not recorded, as with steps of varying length
                require(s["prof"] == "nonunif", "step %d: the observables of the step were not asked for" % i)
                if sim.beamtim.flag_new_bunch_pass or s["regen"] == "async":
                    continue
                pre["s"] = ([impact.rows(cl.MP_e) for cl in sim.cloud_list], [cl.MP_e.nel_mp_ref for cl in sim.cloud_list])
            mid, refs = pre["s"]
            for k, cl in enumerate(sim.cloud_list):
                what = "step %d, cloud %d: " % (i, k)
                a, b, w = before[k], mid[k], want[k]
                after = impact.rows(cl.MP_e)
                for z, name in ((b, "before cleaning"), (after, "after the step")):
                    require(np.isfinite(z).all(), what + "not finite " + name)
                    ins, m = gen.is_inside(c, z[0], z[1])
                    require(np.all(ins | (m < margin(c))), lambda: what + "%d macroparticles outside the chamber %s" % (np.sum(~(ins | (m < margin(c)))), name))
                    require(np.all(z[6] >= 0), what + "negative charge " + name)
                calls = rec[k].calls
                qi = sum(float(np.sum(d["nel_impact"])) for d, o in calls)
                qe = sum(float(np.sum(o["nel_emit_tot_events"])) for d, o in calls)
                # charge
                Q0, Q1 = a[6].sum(), b[6].sum()
                n = (Q1 - Q0 + qi - qe) / refs[k]
                tol = 1e-9 * max(Q0 + qe + Q1, refs[k]) / refs[k]
                require(refs[k] == ref0[k], what + "reference size changed before cleaning")
                src = sources(cfg, k, tnext, sim, s)
                if not src:
                    require(abs(n) <= tol, lambda: what + "charge %.12g became %.12g with %.6g impacting, %.6g emitted and no primaries" % (Q0, Q1, qi, qe))
                else:
                    require(abs(n - np.round(n)) <= tol and n > -0.5, lambda: what + "charge %.12g became %.12g with %.6g impacting and %.6g emitted: primaries of %.9g reference macroparticles" % (Q0, Q1, qi, qe, n))
                    born += int(np.round(n))
                # motion
                if w is not None:
                    x, v, vs = w
                    out, m = gen.is_inside(c, x[0], x[1])
                    near = m < margin(c) + 1e-9 * vs * Dt
                    inside, outside = out & ~near, ~out & ~near
                    vmax = float(vs.max()) + 1e-300
                    path = vmax * Dt
                    sc = [max(path, 1e-3 * X)] * 3 + [vmax] * 3 + [refs[k]]
                    P = np.vstack([x, v, a[6:7]])
                    # some velocities are very much smaller than others: look again at those one by one
                    j = find(P[:, inside], b[:7], sc, 1e-6)
                    require(np.all(j >= 0), lambda: what + "%d of %d macroparticles are not where their motion leads (first: %s, nearest %s)" % (
                        (j < 0).sum(), inside.sum(), P[:, inside][:, np.argmax(j < 0)], nearest(P[:, inside][:, np.argmax(j < 0)], b[:7], sc)))
                    require(len(set(j)) == len(j) or overlapping(P[:, inside], sc), what + "macroparticles merged")
                    dv = np.abs(b[3:6, j] - v[:, inside]).max(0) if inside.any() else np.zeros(0)
                    require(np.all(dv <= 1e-8 * vs[inside]) or overlapping(P[:, inside], sc),
                            lambda: what + "velocity after the motion off by %.3g of its scale" % np.max(dv / vs[inside]))
                    # impacts
                    nimp = sum(len(d["nel_impact"]) for d, o in calls)
                    require(outside.sum() <= nimp <= (outside | near).sum(),
                            lambda: what + "%d macroparticles cross the wall, %d impacts were treated" % (outside.sum(), nimp))
                    if nimp and not near.any():
                        g = np.vstack([np.concatenate([np.atleast_1d(d[q]) for d, o in calls]) for q in ("vx_impact", "vy_impact", "vz_impact", "nel_impact")])
                        j = find(P[3:][:, outside], g, sc[3:], 1e-6)
                        require(np.all(j >= 0), what + "a macroparticle hits the wall with another velocity or charge than it had")
                    hit += nimp
                else:
                    require(not calls, what + "impacts without macroparticles")
                cleaning(s, cfg, cl, k, b, after, refs[k], th0[k], bool(sim.beamtim.flag_new_bunch_pass), tnext, what, labels)
                judged += a.shape[1] >= 10
            if any(cl.MP_e.N_mp > 12000 for cl in sim.cloud_list):
                break
        if judged >= 5 and (hit or born):
            labels |= {s["track"], s["prof"] or "bunched"}
            if s["em"]:
                labels.add("em")
            if S.get("flag_reinterp_fields_at_substeps"):
                labels.add("reinterp")
            if len(sim.cloud_list) > 1:
                labels.add("ions")
            return sorted(labels)


def overlapping(P, sc):
    t = cKDTree((P / np.asarray(sc)[:, None]).T)
    return len(t.query_pairs(3e-6, p=np.inf)) > 0


def nearest(p, b, sc):
    d, i = cKDTree((b / np.asarray(sc)[:, None]).T).query(p / np.asarray(sc), p=np.inf) if b.shape[1] else (np.inf, None)
    return "%s at %.3g" % (b[:, i] if i is not None else None, d)


def sources(cfg, k, t, sim, s):
    """Whether primaries may appear in cloud k at t."""
    m = cfg["machine"] if k == 0 else list(cfg["clouds"].values())[k - 1]
    gas = m.get("gas_ion_flag", 0) == 1 and t < cfg["sim"].get("t_ion", -1)
    return bool(gas or m.get("photoem_flag", 0))


def cleaning(s, cfg, cl, k, b, after, ref, th, passage, t, what, labels):
    """b -> after is the cleaning and regeneration due at this step, and nothing else."""
    S = cfg["sim"]
    regen = S["N_mp_regen"] if k == 0 else 10 ** 9
    ref_ini = S["nel_mp_ref_0"] if k == 0 else list(cfg["clouds"].values())[k - 1]["nel_mp_ref_0"]
    m = cl.MP_e
    W = b
    new = ref
    if passage:
        W = W[:, W[6] >= th]
        if W.shape[1] < b.shape[1]:
            labels.add("cleaned")
        if W.shape[1] == 0:
            new = ref_ini
        n = W.shape[1]
        low = t >= S["t_ON_regen_low"] and n < S.get("N_mp_regen_low", 0) and new > ref_ini
        if n > regen or low:
            exp = max(W[6].sum() / S["N_mp_after_regen"], ref_ini)
            require(abs(m.nel_mp_ref - exp) <= 1e-9 * exp, lambda: what + "reference size %g after the regeneration due, expected %g" % (m.nel_mp_ref, exp))
            require(np.all(after[6] == m.nel_mp_ref), what + "regenerated macroparticles are not of the reference size")
            require(after[6].sum() <= W[6].sum() + 7 * m.nel_mp_ref * np.sqrt(n + 1.0), what + "regeneration added charge")
            labels.add("regenerated low" if low else "regenerated")
            return
        soft = S.get("N_mp_soft_regen")
        if soft is not None and n > soft:
            W, new = thinned(W, S["N_mp_after_soft_regen"], after, m, ref_ini, new, what + "soft regeneration: ")
            labels.add("soft")
            return
    if W.shape[1] > S["N_mp_async_regen"]:
        W = W[:, W[6] >= th]
        if W.shape[1] == 0:
            new = ref_ini
        if W.shape[1] > S["N_mp_async_regen"]:
            thinned(W, S["N_mp_after_async_regen"], after, m, ref_ini, new, what + "asynchronous regeneration: ")
            labels.add("async")
            return
    require(np.array_equal(impact.sort_rows(W), impact.sort_rows(after)), lambda: what + "%d macroparticles (%.9g) became %d (%.9g) in the cleaning, expected %d (%.9g)%s" % (
        b.shape[1], b[6].sum(), after.shape[1], after[6].sum(), W.shape[1], W[6].sum(), " at a passage" if passage else ""))
    require(m.nel_mp_ref == new, lambda: what + "reference size %g became %g without regeneration" % (ref, m.nel_mp_ref))


def thinned(W, target, after, m, ref_ini, ref, what):
    n = W.shape[1]
    if n <= target:
        require(np.array_equal(impact.sort_rows(W), impact.sort_rows(after)), what + "changed a cloud at its target")
        return W, ref
    Q = W[6].sum()
    if (W[6] > 0).sum() < 60:
        return after, m.nel_mp_ref
    require(gen.binom_ok(after.shape[1], n, target / float(n)), lambda: what + "%d of %d kept, target %d" % (after.shape[1], n, target))
    require(abs(after[6].sum() - Q) <= 1e-9 * Q, lambda: what + "charge %.12g became %.12g" % (Q, after[6].sum()))
    exp = max(Q / target, ref_ini)
    require(abs(m.nel_mp_ref - exp) <= 1e-9 * exp, lambda: what + "reference size %g, expected %g" % (m.nel_mp_ref, exp))
    have = {tuple(q) for q in np.delete(W, 6, 0).T}
    require(all(tuple(q) in have for q in np.delete(after, 6, 0).T), what + "macroparticles moved")
    return after, exp


# ------------------------------------------------------------------ equivalent runs

pop = st.fixed_dictionaries(dict(n=st.integers(10, 150), seed=gen.seeds, frac=fl(0.2, 0.95), E=logfl(0.1, 300.0), q=logfl(1e6, 3e9)))


def population(s, c, mass=gen.M_E):
    p = s["pop"]
    r = gen.rng(p["seed"])
    x, y = gen.points_inside(c, p["n"], r, p["frac"])
    u = r.randn(3, p["n"])
    v = u / np.sqrt((u ** 2).sum(0)) * np.sqrt(2 * p["E"] * QE / mass)
    return np.vstack([x, y, 0.01 * r.randn(p["n"]), v, p["q"] / p["n"] * (0.3 + r.rand(p["n"]))])


def quiet(s, cfg):
    """No primaries, no emission, no cleaning: what happens follows from the initial state alone."""
    cfg["secem"] = bu.base_secem(switch_model="perfect_absorber")
    m = cfg["machine"]
    for k in list(m):
        if k.startswith(("init_unif", "gas_ion", "photoem")) or k in (
                "Nel_init_unif", "E_init_unif", "E_init_unif_edens", "P_nTorr", "sigma_ion_MBarn", "Temp_K", "unif_frac", "E_init_ion",
                "inv_CDF_refl_photoem_file", "k_pe_st", "refl_frac", "alimit", "e_pe_sigma", "e_pe_max", "x0_refl", "y0_refl", "out_radius",
                "phem_resc_fac", "energy_distribution", "photoelectron_angle_distribution") or k.endswith(("_init_unif", "_init_unif_edens")):
            del m[k]
    cfg["sim"].update(fact_clean=0.0, N_mp_regen=10 ** 9, N_mp_regen_low=0)
    cfg["sim"].pop("el_density_probes", None)
    return cfg


def trajectories(cfg, rows, n, pick=None):
    """Runs n steps from the given contents; per step the table of every cloud, impacted charge and energy."""
    with pye.TempDir():
        np.random.seed(5)
        sim = bu.make(cfg)
        for cl, a in zip(sim.cloud_list, rows):
            put(cl, a)
        sp = bu.Stepper(sim)
        out = []
        while not sp.done() and sp.i < n - 1:
            sp.step()
            im = [cl.impact_man for cl in sim.cloud_list]
            out.append(dict(rows=[impact.rows(cl.MP_e) for cl in sim.cloud_list], nimp=sum(float(q.Nel_impact_last_step) for q in im),
                            eimp=sum(float(q.En_imp_last_step_eV) for q in im)))
        return out


def alike(A, B, X, what, back=lambda a: a, weight=1.0):
    """The union of clouds of run B, brought back, is that of run A, step by step."""
    n, vm = 0, 1.0
    require(len(A) == len(B), what + ": number of steps differs")
    for i, (p, q) in enumerate(zip(A, B)):
        a, b = np.hstack(p["rows"])[:7], back(np.hstack(q["rows"])[:7])
        b[6] *= weight
        vm = max(vm, np.abs(a[3:6]).max(initial=0.0), np.abs(b[3:6]).max(initial=0.0))
        wm = max(a[6].max(initial=0.0), 1e-300)
        sc = [X, X, X, vm, vm, vm, wm]
        tol = 1e-6
        if a.shape[1] != b.shape[1]:
            # one at the wall within rounding: the rest of the run may not be compared
            return n
        require(gen.close(a[6].sum(), b[6].sum(), 1e-9), lambda: "%s: step %d: charge %.12g, other run %.12g" % (what, i, a[6].sum(), b[6].sum()))
        j = find(a, b, sc, tol)
        require(np.all(j >= 0), lambda: "%s: step %d: %d of %d macroparticles have no counterpart (%s, nearest %s)" % (
            what, i, (j < 0).sum(), a.shape[1], a[:, np.argmax(j < 0)], nearest(a[:, np.argmax(j < 0)], b, sc)))
        require(abs(p["nimp"] - q["nimp"] * weight) <= 1e-6 * (p["nimp"] + wm), lambda: "%s: step %d: %.9g hit the wall, in the other run %.9g" % (what, i, p["nimp"], q["nimp"] * weight))
        n += a.shape[1] >= 5
    return n


eq_spec = bu.with_(pop=pop, ions=st.just(0), regen=st.just(None), prim=st.just(["unif"]), em=st.just(False), seg=st.just(False), probes=st.just(0),
                   lthist=st.booleans(), extra=st.integers(2, 12), nsec=st.just(0), dens=logfl(1e11, 1e13))


@check.sub("splitting", st.tuples(eq_spec, st.fixed_dictionaries(dict(how=st.sampled_from(["clouds", "clouds", "beams", "pattern", "species", "macro"]),
                                                                     f=fl(0.1, 0.9), k=st.integers(2, 5)))).map(lambda t: dict(t[0], **t[1])),
           quick=90, thorough=4000, shards=2, thorough_shards=6)
def splitting(s):
    """The same charge in two clouds, two beams, other macroparticle sizes or multiples of the elementary particle evolves in the same way."""
    s = dict(s)
    if s["track"] == "StrongBdip" and s["how"] in ("clouds", "species"):
        s["track"] = "Boris"
    c = s["ch"]
    X = max(bu.half_size(c))
    cfg = quiet(s, bu.config(s))
    cfg["sim"].update(N_mp_max=20000, cloud_name="one")
    a = population(s, c)
    A = trajectories(cfg, [a], 45)
    cf2 = dict(cfg, sim=dict(cfg["sim"]), machine=dict(cfg["machine"]), beam=dict(cfg["beam"]), secem=dict(cfg["secem"]), clouds={}, sec_beams={})
    n = a.shape[1]
    f = max(1, min(n - 1, int(s["f"] * n)))
    back, weight, rows = (lambda q: q), 1.0, [a]
    if s["how"] == "clouds":
        cf2["sim"]["additional_clouds_file_list"] = ["other.cloud"]
        cf2["clouds"]["other.cloud"] = dict(cloud_mass=gen.M_E, cloud_charge=-QE, gas_ion_flag=0, photoem_flag=0, init_unif_flag=0,
                                            init_unif_edens_flag=0, switch_model="perfect_absorber", logfile_path="./l2.txt", progress_path="./p2.txt")
        rows = [a[:, :f], a[:, f:]]
    elif s["how"] == "beams":
        b = cfg["beam"]
        cf2["beam"]["fact_beam"] = s["f"] * b["fact_beam"]
        cf2["beam"]["coast_dens"] = s["f"] * b["coast_dens"]
        cf2["sim"]["secondary_beams_file_list"] = ["second.beam"]
        cf2["sec_beams"]["second.beam"] = dict(b, fact_beam=(1 - s["f"]) * b["fact_beam"], coast_dens=(1 - s["f"]) * b["coast_dens"])
    elif s["how"] == "pattern":
        cf2["beam"].update(fact_beam=cfg["beam"]["fact_beam"] * s["f"], filling_pattern_file=[q / s["f"] for q in cfg["beam"]["filling_pattern_file"]])
    elif s["how"] == "species":
        # k times the charge and the mass: the same motion and, with 1/k as many, the same fields
        cf2["sim"].update(cloud_mass=s["k"] * gen.M_E, cloud_charge=-s["k"] * QE)
        weight = float(s["k"])
        b = a.copy()
        b[6] /= s["k"]
        rows = [b]
    else:
        # every macroparticle split into two of f and 1-f of its charge at the same place
        b1, b2 = a.copy(), a.copy()
        b1[6] *= s["f"]
        b2[6] *= 1 - s["f"]
        rows = [np.hstack([b1, b2])]

        def back(q):
            o = np.lexsort(q[:6])
            q = q[:, o]
            if q.shape[1] % 2:
                return q[:, :0]
            z = q[:, ::2].copy()
            z[6] = q[6, ::2] + q[6, 1::2]
            return z
    B = trajectories(cf2, rows, 45)
    if s["how"] == "macro":
        # twins never part
        for i, q in enumerate(B):
            g = q["rows"][0][:6].T
            u = {tuple(z) for z in g}
            require(2 * len(u) == len(g), lambda: "macroparticles that share position and velocity part at step %d" % i)
    k = alike(A, B, X, s["how"], back, weight)
    if k >= 5:
        return [s["how"], s["track"]]


def transform(name):
    """(positions and velocities there, and back)"""
    def there(a):
        a = a.copy()
        if name == "mx":
            a[[0, 3]] *= -1
        elif name == "my":
            a[[1, 4]] *= -1
        else:
            x, y, vx, vy = a[0].copy(), a[1].copy(), a[3].copy(), a[4].copy()
            a[0], a[1], a[3], a[4] = -y, x, -vy, vx
        return a

    def back(a):
        if name != "rot":
            return there(a)
        a = a.copy()
        x, y, vx, vy = a[0].copy(), a[1].copy(), a[3].copy(), a[4].copy()
        a[0], a[1], a[3], a[4] = y, -x, vy, -vx
        return a
    return there, back


@check.sub("symmetry", st.tuples(eq_spec, st.fixed_dictionaries(dict(how=st.sampled_from(["mx", "my", "rot"]), px=fl(-0.3, 0.3), py=fl(-0.3, 0.3),
                                                                    off=st.booleans()))).map(lambda t: dict(t[0], **t[1])),
           quick=90, thorough=4000, shards=2, thorough_shards=6)
def symmetry(s):
    """The mirrored or rotated set-up evolves as the mirror or rotated image."""
    s = dict(s)
    c = s["ch"]
    X = max(bu.half_size(c))
    hx, hy = bu.half_size(c)
    if s["track"] == "StrongBdip" and s["how"] == "rot":
        s["track"] = "Boris"
    cfg = quiet(s, bu.config(s))
    cfg["sim"]["N_mp_max"] = 20000
    if s["off"]:
        cfg["beam"].update(x_beam_pos=s["px"] * hx, y_beam_pos=s["py"] * hy)
    a = population(s, c)
    there, back = transform(s["how"])
    cf2 = dict(cfg, sim=dict(cfg["sim"]), machine=dict(cfg["machine"]), beam=dict(cfg["beam"]), mats=dict(cfg["mats"]), clouds={}, sec_beams={})
    m, b = cf2["machine"], cf2["beam"]
    px, py = b.get("x_beam_pos", 0.0), b.get("y_beam_pos", 0.0)
    if "chamber.mat" in cfg["mats"]:
        d = {k: np.array(v) for k, v in cfg["mats"]["chamber.mat"].items()}
        P = np.zeros((7, len(np.ravel(d["Vx"]))))
        P[0], P[1] = np.ravel(d["Vx"]), np.ravel(d["Vy"])
        P = there(P)
        o = slice(None, None, -1) if s["how"] != "rot" else slice(None)
        d["Vx"], d["Vy"] = P[0][o], P[1][o]
        px0 = np.array([[float(np.ravel(d[k])[0])] for k in ("x_sem_ellip_insc", "y_sem_ellip_insc")])
        if s["how"] == "rot":
            d["x_sem_ellip_insc"], d["y_sem_ellip_insc"] = px0[1], px0[0]
        cf2["mats"]["chamber.mat"] = d
    elif s["how"] == "rot":
        m["x_aper"], m["y_aper"] = cfg["machine"]["y_aper"], cfg["machine"]["x_aper"]
    if s["how"] == "mx":
        b["x_beam_pos"] = -px
        if "B0y" in m:
            m.update(B0y=-m["B0y"], B0z=-m["B0z"])
        if "B_multip" in m:
            m["B_multip"] = [(-1) ** (n + 1) * q for n, q in enumerate(m["B_multip"])]
            if "B_skew" in m:
                m["B_skew"] = [(-1) ** n * q for n, q in enumerate(m["B_skew"])]
        if s["track"] == "StrongBdip":
            m["B"] = -m["B"]
    elif s["how"] == "my":
        b["y_beam_pos"] = -py
        if "B0x" in m:
            m.update(B0x=-m["B0x"], B0z=-m["B0z"])
        if "B_skew" in m:
            m["B_skew"] = [-q for q in m["B_skew"]]
    else:
        b.update(x_beam_pos=-py, y_beam_pos=px, sigmax=cfg["beam"]["sigmay"], sigmay=cfg["beam"]["sigmax"])
        if "B0x" in m:
            m["B0x"], m["B0y"] = -cfg["machine"]["B0y"], cfg["machine"]["B0x"]
        if "B_multip" in m:
            bn = list(m["B_multip"])
            sk = list(m.get("B_skew") or [0.0] * len(bn))
            z = [(-1j) ** (n + 1) * (p + 1j * q) for n, (p, q) in enumerate(zip(bn, sk))]
            m["B_multip"], m["B_skew"] = [float(q.real) for q in z], [float(q.imag) for q in z]
    A = trajectories(cfg, [a], 45)
    B = trajectories(cf2, [there(a)], 45)
    k = alike(A, B, X, s["how"], back)
    if k >= 5:
        return [s["how"], s["track"], c["kind"], "offset" if s["off"] else "centred"]


# ------------------------------------------------------------------ clouds without interaction

class Seeded:
    """Passes everything on to the object, with the random numbers of a call set by its number."""

    def __init__(self, obj, tag, names):
        self.__dict__.update(_obj=obj, _tag=tag, _n=0, _names=names)

    def __getattr__(self, k):
        v = getattr(self._obj, k)
        if k not in self._names:
            return v

        def call(*a, **kw):
            self.__dict__["_n"] += 1
            np.random.seed((self._tag * 1000003 + self._n * 7919 + len(k)) % 2 ** 31)
            return v(*a, **kw)
        return call

    def __setattr__(self, k, v):
        setattr(self._obj, k, v)


def seeded(cl, tag):
    cl.impact_man.sey_mod = Seeded(cl.impact_man.sey_mod, tag, ("impacts_on_surface", "SEY_process"))
    if cl.resgasion is not None:
        cl.resgasion = Seeded(cl.resgasion, tag + 1, ("generate",))
    if cl.phemiss is not None:
        cl.phemiss = Seeded(cl.phemiss, tag + 2, ("generate",))


def single(cfg, tags, rows, n):
    with pye.TempDir():
        np.random.seed(5)
        sim = bu.make(cfg)
        for cl in sim.cloud_list:
            seeded(cl, tags[cl.name])
            put(cl, rows[cl.name])
        sp = bu.Stepper(sim)
        out = []
        while not sp.done() and sp.i < n - 1:
            sp.step()
            out.append({cl.name: (impact.sort_rows(impact.rows(cl.MP_e)), cl.MP_e.nel_mp_ref, float(cl.impact_man.Nel_impact_last_step),
                                  float(cl.impact_man.Nel_emit_last_step), float(cl.impact_man.En_imp_last_step_eV)) for cl in sim.cloud_list})
            if any(cl.MP_e.N_mp > 2500 for cl in sim.cloud_list):
                break
        return out


@check.sub("alone", bu.with_(pop=pop, pop2=pop, ions=st.just(0), regen=st.just(None), em=st.just(False), sec2=bu.sec_models, mass2=st.sampled_from([gen.M_E, 2 * bu.MP, 28 * bu.MP]),
                             fsplit2=fl(1.2, 2.5), fclean2=st.sampled_from([1e-6, 0.2]), nsub2=st.integers(1, 3), gas2=st.booleans(), order=st.booleans(),
                             track=st.sampled_from(["Boris", "BorisMultipole"])), quick=60, thorough=3000, shards=3, thorough_shards=6)
def alone(s):
    """Two clouds without interaction evolve as each does when simulated alone."""
    s = dict(s)
    c = s["ch"]
    cfg = bu.config(s)
    mats2 = {}
    se2 = bu.secem_of(s["sec2"], mats2)
    # tables of the second model under other names
    for k in list(mats2):
        mats2["two_" + k] = mats2.pop(k)
    if "sey_file" in se2:
        se2["sey_file"] = "two_" + se2["sey_file"]
    cfg["mats"].update(mats2)
    # what the second model leaves to the defaults must not come from the first
    for k, v in params.SECEM[1].items():
        if k in cfg["secem"] and k not in se2:
            se2[k] = v
    sim, m = cfg["sim"], cfg["machine"]
    sim.update(t_sc_ON=1e3, N_mp_max=40000, cloud_name="one", flag_hist_impact_seg=0)
    q = 1.0 if s["mass2"] != gen.M_E else -1.0
    own = dict(se2, cloud_mass=s["mass2"], cloud_charge=q * QE, gas_ion_flag=m.get("gas_ion_flag", 0) if s["gas2"] else 0, photoem_flag=0, init_unif_flag=0,
               init_unif_edens_flag=0, nel_mp_ref_0=1.3 * sim["nel_mp_ref_0"], fact_split=s["fsplit2"], fact_clean=s["fclean2"],
               N_sub_steps=s["nsub2"], N_mp_regen=10 ** 9, logfile_path="./l2.txt", progress_path="./p2.txt")
    names = {"one": 11, "two": 777}
    r1 = population(s, c)
    r1[6] *= sim["nel_mp_ref_0"] / r1[6].mean()
    r2 = population(dict(s, pop=s["pop2"]), c, s["mass2"])
    r2[6] *= own["nel_mp_ref_0"] / r2[6].mean()
    rows = {"one": r1, "two": r2}
    both = dict(cfg, sim=dict(sim, additional_clouds_file_list=["two.cloud"]), clouds={"two.cloud": own}, sec_beams={})
    T = single(both, names, rows, 45)
    A = single(dict(cfg, sec_beams={}, clouds={}), names, rows, 45)
    # the second cloud as the main one of a simulation of its own
    allow_sim = ("nel_mp_ref_0", "fact_split", "fact_clean", "N_mp_regen", "cloud_mass", "cloud_charge", "logfile_path", "progress_path")
    mach = dict(m)
    for k in ("gas_ion_flag", "photoem_flag", "init_unif_flag", "init_unif_edens_flag", "N_sub_steps"):
        mach[k] = own[k]
    s2 = dict(sim, cloud_name="two", **{k: own[k] for k in allow_sim})
    B = single(dict(cfg, sim=s2, machine=mach, secem=se2, clouds={}, sec_beams={}), names, rows, 45)
    good = 0
    for i, t in enumerate(T):
        for name, R in (("one", A), ("two", B)):
            if i >= len(R):
                continue
            x, y = t[name], R[i][name]
            require(x[0].shape == y[0].shape and np.array_equal(x[0], y[0]), lambda: "step %d: cloud %s has %d macroparticles (%.9g) with the other one present, %d (%.9g) alone" % (
                i, name, x[0].shape[1], x[0][6].sum(), y[0].shape[1], y[0][6].sum()))
            require(x[1:] == y[1:], lambda: "step %d: cloud %s: reference size, impacting, emitted charge or energy %s with the other one present, %s alone" % (i, name, x[1:], y[1:]))
            good += x[0].shape[1] >= 5
    if good >= 10:
        return [s["sec"]["model"] if isinstance(s["sec"]["model"], str) else "ecloud", "gas" if own["gas_ion_flag"] else "no gas", "m%g" % (s["mass2"] / bu.MP)]


# ------------------------------------------------------------------ determinism

@check.sub("pieces", bu.with_(stops=st.lists(fl(0, 1), min_size=1, max_size=4), em=st.sampled_from([False, False, True]), two=st.booleans()),
           quick=32, thorough=2000, shards=2, thorough_shards=4)
def pieces(s):
    """The same inputs and random state give the same run, in one go or in pieces, whatever ran before."""
    s = dict(s)
    if s["em"]:
        s.update(track="BorisMultipole", dtsc=s["dtsc"] or 1.0)
    cfg = bu.config(s)
    if s["two"]:
        cfg["sim"]["secondary_beams_file_list"] = ["two.beam"]
        cfg["sec_beams"]["two.beam"] = dict(cfg["beam"], t_offs=cfg["beam"]["t_offs"] * 0.6, fact_beam=0.6 * cfg["beam"]["fact_beam"])
    T = bu.time_axis(cfg)[-1]
    out = []
    for how in ("go", "pieces", "again"):
        with pye.TempDir():
            np.random.seed(s["seed"] % 2 ** 31)
            sim = bu.make(cfg)
            if how == "pieces":
                for f in sorted(s["stops"]):
                    sim.run(t_end_sim=f * T)
            sim.run()
            out.append([(impact.rows(cl.MP_e), cl.MP_e.nel_mp_ref) for cl in sim.cloud_list])
            files = [bu.load_out(cl.pyeclsaver.filen_main_outp) for cl in sim.cloud_list]
            out[-1].append(files)
    for o, what in ((out[1], "run in pieces"), (out[2], "run again")):
        for k, ((a, ra), (b, rb)) in enumerate(zip(out[0][:-1], o[:-1])):
            require(np.array_equal(a, b) and ra == rb, lambda: "%s: cloud %d differs from the run in one go with the same random numbers" % (what, k))
        for k, (f, g) in enumerate(zip(out[0][-1], o[-1])):
            require(sorted(f) == sorted(g), what + ": variables of the output differ")
            for v in f:
                a, b = f[v], g[v]
                ok = a.shape == b.shape and (np.array_equal(a, b, equal_nan=True) if a.dtype.kind == "f" else a.tolist() == b.tolist())
                require(ok, lambda: "%s: output %s of cloud %d differs" % (what, v, k))
    if sum(a.shape[1] for a, _ in out[0][:-1]) > 5:
        return ["em" if s["em"] else "es", "two beams" if s["two"] else "one beam", s["regen"] or "no regeneration"]

"""C11: the beam timeline. Every step of the real object against the configured bunches, profile and passages."""
import numpy as np
from hypothesis import strategies as st

from vlib import buildup as bu, gen, pye
from vlib.harness import Check, require

C = gen.C_L

check = Check("C11", rule="a case is non-trivial when the timeline contains at least one full bunch (or a profile with "
              "variation) and at least two passages, stepped to the end",
              assumptions=["bunch lengths of at least 0.8 time steps, so that sums over samples are integrals",
                           "instants within rounding of a multiple of the bunch spacing may count to either passage"])

CH = dict(kind="ellip", a=0.02, b=0.015)
FIELD = dict(Ex=np.zeros((5, 5)), Ey=np.zeros((5, 5)), xx=np.linspace(-.03, .03, 5), yy=np.linspace(-.02, .02, 5))


def beam(ch, **kw):
    import scipy.io as sio
    import os
    if not os.path.exists("field.mat"):
        sio.savemat("field.mat", {k: np.asarray(v, complex if k in ("Ex", "Ey") else float) for k, v in FIELD.items()}, oned_as="row")
    a = dict(flag_bunched_beam=1, fact_beam=1.0, coast_dens=0.0, beam_charge=gen.E_CH, beam_field_file="field.mat",
             lam_th_beam_field=1e2, chamb=ch, sigmax=1e-3, sigmay=1e-3)
    a.update(kw)
    return pye.beam_and_timing.beam_and_timing(**a)


def walk(b):
    """Steps to the end; the recorded values of every step."""
    out = []
    while not b.end_simulation():
        b.next_time_step()
        out.append((b.tt_curr, b.Dt_curr, b.lam_t_curr, b.pass_numb, bool(b.flag_new_bunch_pass)))
        require(len(out) < 10 ** 6, "the timeline does not end")
    return [np.array(x) for x in zip(*out)]


def bunches(t, b_spac, t_offs, n, sz, c):
    """Sum of Gaussian bunches, written with times instead of positions."""
    lam = np.zeros(len(t))
    for i in range(len(n)):
        if n[i] != 0 and sz[i] > 0:
            s = sz[i] / C
            lam += n[i] / (np.sqrt(2 * np.pi) * s * C) * np.exp(-0.5 * ((t - t_offs - i * b_spac) / s) ** 2)
    return lam


def check_passages(tt, npass, flag, b_spac, total, start=-1):
    """pass number = completed spacings; the flag marks exactly the first step of each new passage."""
    ratio = tt / b_spac
    amb = np.abs(ratio - np.round(ratio)) < 1e-9
    want = np.floor(ratio)
    require(np.all((npass == want) | (amb & (np.abs(npass - np.round(ratio)) <= 1))),
            lambda: "passage number %s at t/b_spac=%s" % (npass[(npass != want) & ~amb][:3], ratio[(npass != want) & ~amb][:3]))
    require(np.all(np.diff(npass) >= 0), "passage numbers go back")
    prev = np.concatenate([[start], npass[:-1]])
    require(np.array_equal(flag, npass > prev), "new-passage flags are not at the changes of passage")
    require(int(flag.sum()) == len(set(npass.tolist())), "a passage is flagged more than once")
    require(npass.max() < total, lambda: "passage %d of a total of %d" % (npass.max(), total))


bunched_spec = st.fixed_dictionaries(dict(
    Dt=st.sampled_from([1e-12, 1e-11, 2.5e-11, 7.3e-11]), steps=st.integers(3, 60), frac=st.sampled_from([0.0, 0.0, 0.5, 0.31]),
    pattern=st.lists(st.sampled_from([1.0, 1.0, 0.0, 0.3, 1.7]), min_size=1, max_size=14) | st.lists(st.sampled_from([1.0, 0.0, 2.0]), min_size=1, max_size=6), kind=st.sampled_from(["list", "mat", "matsz"]),
    sz=gen.fl(0.8, 6.0), toff=gen.fl(-0.5, 1.5), extra=gen.fl(-1.0, 1.5), fact=gen.logfl(1e8, 1e12),
    coast=st.sampled_from([0.0, 0.0, 1e9]), ints=st.sampled_from([None, "uint8", "int64"]), oned=st.sampled_from(["row", "column"]),
    seed=gen.seeds))


@check.sub("bunched", bunched_spec, quick=300, thorough=10000, shards=2)
def bunched(s):
    import scipy.io as sio
    r = gen.rng(s["seed"])
    Dt = s["Dt"]
    b_spac = (s["steps"] + s["frac"]) * Dt
    n = np.array(s["pattern"])
    N = len(n)
    sz = np.full(N, s["sz"] * Dt * C)
    kw = dict(sigmaz=s["sz"] * Dt * C, filling_pattern_file=list(s["pattern"]))
    with pye.TempDir():
        if s["kind"] != "list":
            d = dict(ppb_vect=n)
            if s["kind"] == "matsz":
                sz = s["sz"] * Dt * C * (0.8 + r.rand(N))
                sz[r.rand(N) < 0.1] = 0.0
                if N == 1:
                    sz[0] = s["sz"] * Dt * C * 1.1
                d["sigmaz_vect"] = sz
                kw["sigmaz"] = -1
            if s["ints"] and np.all(n == np.round(n)):
                # patterns of whole numbers are stored as integers
                d["ppb_vect"] = n.astype(s["ints"])
            sio.savemat("fill.mat", d, oned_as=s["oned"])
            kw["filling_pattern_file"] = "fill.mat"
        t_end = s["extra"] * b_spac
        if N * b_spac + t_end < 2 * Dt:
            return None
        b = beam(gen.build_chamber(CH), b_spac=b_spac, t_offs=s["toff"] * b_spac, Dt=Dt, t_end=t_end,
                 fact_beam=s["fact"], coast_dens=s["coast"], **kw)
        tt, dt, lam, npass, flag = walk(b)
    # instants: from zero, spaced by Dt, nothing skipped or repeated, up to the configured length
    require(tt[0] == 0.0 and np.allclose(np.diff(tt), Dt, rtol=1e-6), "instants are not spaced by Dt from zero")
    require(np.allclose(dt, Dt, rtol=1e-6), "step durations are not Dt")
    end = N * b_spac + t_end
    require(end - 1e-6 * Dt <= tt[-1] + Dt and tt[-1] + Dt <= end + 2.0001 * Dt, lambda: "timeline ends at %g steps instead of %g" % (tt[-1] / Dt + 1, end / Dt))
    want = s["fact"] * bunches(tt, b_spac, s["toff"] * b_spac, n, sz, C) + s["coast"]
    peak = max(want.max(), 1.0)
    require(np.max(np.abs(lam - want)) <= 1e-9 * peak, lambda: "line density differs by %g of the peak at t=%g b_spac" %
            (np.max(np.abs(lam - want)) / peak, tt[np.argmax(np.abs(lam - want))] / b_spac))
    check_passages(tt, npass, flag, b_spac, b.N_pass_tot)
    full = [i for i in range(N) if n[i] and sz[i] > 0 and s["toff"] * b_spac + i * b_spac - 7 * sz[i] / C > 0
            and s["toff"] * b_spac + i * b_spac + 7 * sz[i] / C < tt[-1]]
    if full and all(n[i] == 0 or sz[i] == 0 or i in full for i in range(N)):
        tot = float(np.sum(lam - s["coast"]) * C * Dt)
        w = s["fact"] * float(sum(n[i] for i in full))
        require(abs(tot - w) <= 5e-3 * w, lambda: "integral of the line density %g instead of %g particles" % (tot, w))
    if full and npass.max() >= 1:
        return [s["kind"], "coast" if s["coast"] else "no_coast"]


@check.sub("profile", st.fixed_dictionaries(dict(
    unif=st.booleans(), n=st.integers(3, 200), u=st.sampled_from([1e-12, 2.5e-11, 1e-10]), b=gen.fl(2.5, 40.0), seed=gen.seeds,
    fact=gen.logfl(1e-2, 1e12), coast=st.sampled_from([0.0, 1e9]), neg=st.booleans())), quick=200, thorough=6000)
def profile(s):
    """A line density from file is reproduced, scaled and offset, in uniform and non-uniform time steps."""
    import scipy.io as sio
    r = gen.rng(s["seed"])
    dts = np.full(s["n"] - 1, s["u"]) if s["unif"] else s["u"] * 10 ** r.uniform(-1, 0.3, s["n"] - 1)
    t = np.concatenate([[0.0], np.cumsum(dts)])
    lam0 = r.rand(s["n"]) * (r.rand(s["n"]) < 0.7)
    b_spac = s["b"] * s["u"]
    with pye.TempDir():
        sio.savemat("prof.mat", dict(t=t, lam_t_array=lam0), oned_as="row")
        given = 3.3e-11
        b = beam(gen.build_chamber(CH), flag_bunched_beam=0, beam_long_prof_file="prof.mat", b_spac=b_spac, Dt=given,
                 fact_beam=s["fact"], coast_dens=s["coast"])
        tt, dt, lam, npass, flag = walk(b)
        require(len(tt) == s["n"] - 1 and np.array_equal(tt, t[:-1]), "instants of the profile are not reproduced one by one")
        require(np.allclose(dt, np.diff(t), rtol=1e-12), "step durations are not those of the profile")
        want = s["fact"] * lam0[:-1] + s["coast"]
        require(np.max(np.abs(lam - want)) <= 1e-12 * max(want.max(), 1e-300), "line density is not the scaled profile")
        d = np.diff(t)
        isunif = (d.max() - d.mean()) <= 0.99e-4 * d.mean()
        if s["n"] > 3:
            require(bool(b.flag_unif_Dt) == isunif, "uniform time step not recognised as such")
            require(abs(b.Dt - (s["u"] if isunif else given)) <= 1e-6 * b.Dt, "time step attributed to the profile is wrong")
        check_passages(tt, npass, flag, b_spac, b.N_pass_tot)
    if npass.max() >= 1:
        return "uniform" if s["unif"] else "non_uniform"


@check.sub("secondary", st.fixed_dictionaries(dict(
    Dt=st.sampled_from([1e-11, 2.5e-11]), steps=st.integers(5, 40), pattern=st.lists(st.sampled_from([1.0, 0.5, 0.0]), min_size=1, max_size=5),
    steps2=gen.fl(3, 60), pattern2=st.lists(st.sampled_from([1.0, 0.4, 0.0]), min_size=1, max_size=8), toff2=gen.fl(0, 1), sz2=gen.fl(1, 5),
    fact2=gen.logfl(1e9, 1e12), how=st.sampled_from(["bunched", "file", "shifted", "some", "short"]), sign=st.sampled_from([1, -1]), seed=gen.seeds)), quick=120, thorough=3000)
def secondary(s):
    """A secondary beam shares the instants of the primary and keeps its own bunches and passages; other axes are refused."""
    import scipy.io as sio
    Dt = s["Dt"]
    with pye.TempDir():
        ch = gen.build_chamber(CH)
        b1 = beam(ch, b_spac=s["steps"] * Dt, t_offs=2 * Dt, Dt=Dt, t_end=0., sigmaz=2 * Dt * C, filling_pattern_file=s["pattern"])
        kw = dict(flag_secodary_beam=True, t_primary_beam=b1.t, b_spac=s["steps2"] * Dt, fact_beam=s["fact2"], Dt=Dt, t_end=0.)
        if s["how"] == "bunched":
            b2 = beam(ch, t_offs=s["toff2"] * s["steps2"] * Dt, sigmaz=s["sz2"] * Dt * C, filling_pattern_file=s["pattern2"], **kw)
        else:
            t = np.array(b1.t)
            if s["how"] == "shifted":
                t = t + s["sign"] * Dt * 0.01 * (1 + s["seed"] % 100)
            elif s["how"] == "some":
                k = s["seed"] % (len(t) - 1)
                t[k:k + 1 + s["seed"] % 3] += s["sign"] * Dt * 0.01 * (1 + s["seed"] % 60)
            elif s["how"] == "short":
                t = t[:-1]
            lam0 = gen.rng(s["seed"]).rand(len(t))
            sio.savemat("prof2.mat", dict(t=t, lam_t_array=lam0), oned_as="row")
            try:
                b2 = beam(ch, flag_bunched_beam=0, beam_long_prof_file="prof2.mat", **kw)
            except ValueError:
                require(s["how"] != "file", "a secondary beam on the instants of the primary is refused")
                return "refused"
            require(s["how"] == "file", "a secondary beam on other instants than the primary's is accepted")
        one, two = walk(b1), walk(b2)
        require(np.array_equal(one[0], two[0]) and np.array_equal(one[1], two[1]), "the two beams are not at the same instants")
        if s["how"] == "bunched":
            n = np.array(s["pattern2"])
            want = s["fact2"] * bunches(two[0], s["steps2"] * Dt, s["toff2"] * s["steps2"] * Dt, n, np.full(len(n), s["sz2"] * Dt * C), C)
        else:
            want = s["fact2"] * lam0[:-1]
        require(np.max(np.abs(two[2] - want)) <= 1e-9 * max(want.max(), 1.0), "line density of the secondary beam")
        check_passages(two[0], two[3], two[4], s["steps2"] * Dt, 10 ** 9)
    return s["how"]


def record(sim):
    """Values seen at each step of a run that is driven by the simulation itself."""
    rows = []
    orig = sim.sim_time_step

    def spy(*a, **k):
        b = sim.beamtim
        rows.append((b.tt_curr, b.Dt_curr, b.lam_t_curr, b.pass_numb, bool(b.flag_new_bunch_pass),
                     tuple((x.tt_curr, x.lam_t_curr, x.pass_numb, bool(x.flag_new_bunch_pass)) for x in sim.sec_beams_list)))
        return orig(*a, **k)
    sim.sim_time_step = spy
    return rows


@check.sub("simulation", bu.with_(nsec=st.integers(0, 2), stops=st.lists(gen.fl(0, 1), max_size=3), prof=st.sampled_from([None, None, "unif", "nonunif"]),
                                  offs=gen.fl(0.1, 0.9)), quick=100, thorough=2500, shards=2)
def simulation(s):
    """In a run, with interruptions by t_end_sim: each instant of the timeline is simulated once, with all beams at it."""
    s = dict(s)
    if s["prof"] == "nonunif":
        s["track"] = "Boris"
    s.update(em=False, regen=None, ions=0)
    cfg = bu.config(s)
    cfg["sim"]["save_mat_every"] = 1
    Dt = cfg["sim"]["Dt"]
    r = gen.rng(s["seed"])
    t = bu.time_axis(cfg)
    if s["prof"]:
        d = np.full(len(t) - 1, 0.8 * Dt) if s["prof"] == "unif" else Dt * r.choice([1.0, 0.5, 1.5, 0.2], len(t) - 1)
        if s["prof"] == "nonunif":
            d[0], d[-1] = Dt, 1.5 * Dt
        t = np.concatenate([[0.], np.cumsum(d)])
        lam0 = s["ppb"] * r.rand(len(t))
        cfg["mats"]["prof.mat"] = dict(t=t, lam_t_array=lam0)
        cfg["beam"].update(flag_bunched_beam=0, beam_long_prof_file="prof", fact_beam=1.0)
        cfg["machine"]["N_sub_steps"] = 2
        if cfg["machine"]["track_method"] == "StrongBdip":
            del cfg["machine"]["N_sub_steps"]
    for k in range(s["nsec"]):
        f = "sec%d.beam" % k
        b2 = dict(cfg["beam"])
        b2.update(x_beam_pos=0.1e-3 * (k + 1), fact_beam=cfg["beam"]["fact_beam"] * (0.5 + k), b_spac=cfg["beam"]["b_spac"] * (0.7 + 0.8 * k))
        if s["prof"]:
            cfg["mats"]["prof_%d.mat" % k] = dict(t=t, lam_t_array=s["ppb"] * (k + 2) * r.rand(len(t)))
            b2["beam_long_prof_file"] = "prof_%d.mat" % k
        else:
            b2["t_offs"] = s["offs"] * b2["b_spac"]
            b2["filling_pattern_file"] = [1.0, 0.0, 1.0]
        cfg["sec_beams"][f] = b2
    cfg["sim"]["secondary_beams_file_list"] = sorted(cfg["sec_beams"])
    if s["prof"]:
        npas = int(np.ceil(t[-1] / cfg["beam"]["b_spac"]))
    with pye.TempDir():
        sim = bu.make(cfg)
        rows = record(sim)
        want_t = t[:-1]
        for f in sorted(s["stops"]):
            te = f * t[-1]
            sim.run(t_end_sim=te)
            k = len(rows)
            require(k >= 1 and (rows[-1][0] >= te or k == len(want_t)) and (k == 1 or rows[-2][0] < te),
                    lambda: "run until %g ended at %g" % (te, rows[-1][0]))
        sim.run()
        n0 = len(rows)
        sim.run()
        require(len(rows) == n0, "a finished simulation goes on")
        tt = np.array([x[0] for x in rows])
        require(len(tt) == len(want_t) and np.allclose(tt, want_t, rtol=0, atol=1e-9 * Dt), "instants of the timeline are not simulated once each")
        lam = np.array([x[2] for x in rows])
        b = cfg["beam"]
        if s["prof"]:
            want = lam0[:-1] + s["coast"]
        else:
            n = np.array(b["filling_pattern_file"])
            want = b["fact_beam"] * bunches(tt, b["b_spac"], b["t_offs"], n, np.full(len(n), b["sigmaz"]), C) + s["coast"]
        require(np.max(np.abs(lam - want)) <= 1e-9 * max(want.max(), 1.), "line density of the run differs")
        check_passages(tt, np.array([x[3] for x in rows]), np.array([x[4] for x in rows]), b["b_spac"], 10 ** 9)
        for k in range(s["nsec"]):
            b2 = cfg["sec_beams"]["sec%d.beam" % k]
            require(all(x[5][k][0] == x[0] for x in rows), "secondary beam at another instant than the primary")
            lam = np.array([x[5][k][1] for x in rows])
            if s["prof"]:
                want = b2["fact_beam"] * np.asarray(cfg["mats"]["prof_%d.mat" % k]["lam_t_array"])[:-1] + s["coast"]
            else:
                n = np.array(b2["filling_pattern_file"])
                want = b2["fact_beam"] * bunches(tt, b2["b_spac"], b2["t_offs"], n, np.full(len(n), b2["sigmaz"]), C) + s["coast"]
            require(np.max(np.abs(lam - want)) <= 1e-9 * max(want.max(), 1.), "line density of secondary beam %d differs" % k)
            check_passages(tt, np.array([x[5][k][2] for x in rows]), np.array([x[5][k][3] for x in rows]), b2["b_spac"], 10 ** 9)
        # the clouds are moved by the time that passes
        for c in sim.cloud_list:
            step = Dt if s["prof"] == "nonunif" else float(np.diff(t)[0])
            require(abs(c.dynamics.Dt - step) <= 1e-6 * step, lambda: "tracker step %g, timeline step %g" % (c.dynamics.Dt, step))
    return [s["prof"] or "bunched", "sec%d" % s["nsec"], "stops%d" % len(s["stops"])]

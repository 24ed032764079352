"""C13: residual-gas ionization."""
import numpy as np
from hypothesis import strategies as st

from vlib import buildup as bu, gen, ht, impact, pye, seeding
from vlib.harness import Check, require

fl, logfl = gen.fl, gen.logfl
QE, C = gen.E_CH, gen.C_L

check = Check("C13", rule="a case is non-trivial when macroparticles were created and their number, place and speed were judged",
              assumptions=["numbers: whole number below or above the mean in every request, 7 standard deviations over all requests",
                           "places: two-sample Kolmogorov-Smirnov test (p = 1e-10) against an independent sampler",
                           "Torr and Boltzmann constants within 3e-4"])


def sample(c, r, n, sx, sy, px, py, uf):
    """Independent sampler: Gaussian or (fraction uf) uniform in the box, each inside the chamber."""
    X, Y = bu.half_size(c)
    def draw(k, f):
        xs, ys, got = [], [], 0
        while got < k:
            x, y = f(4 * k + 50)
            i, _ = gen.is_inside(c, x, y)
            xs.append(x[i]); ys.append(y[i]); got += int(i.sum())
        return np.concatenate(xs + [np.zeros(0)])[:k], np.concatenate(ys + [np.zeros(0)])[:k]
    k = r.binomial(n, uf)
    a = draw(k, lambda m: (X * (2 * r.rand(m) - 1), Y * (2 * r.rand(m) - 1)))
    b = draw(n - k, lambda m: (px + sx * r.randn(m), py + sy * r.randn(m)))
    return np.concatenate([a[0], b[0]]), np.concatenate([a[1], b[1]])


def judge(c, x, y, ref, what, px, py):
    rx, ry = ref
    seeding.ks2(x, rx, what + ", x")
    seeding.ks2(y, ry, what + ", y")
    seeding.ks2(np.hypot(x - px, y - py), np.hypot(rx - px, ry - py), what + ", distance from the beam")
    seeding.ks2(x + y, rx + ry, what + ", diagonal")
    seeding.ks2(x - y, rx - ry, what + ", other diagonal")


@check.sub("generate", st.fixed_dictionaries(dict(
    ch=gen.chambers(), seed=gen.seeds, P=logfl(0.1, 500.0), sig=logfl(0.2, 50.0), T=logfl(4.0, 400.0), lam=logfl(1e9, 1e13),
    Dt=logfl(1e-12, 1e-9), mean=logfl(0.01, 3000.0), calls=st.integers(5, 60), E=logfl(1e-4, 10.0), uf=st.sampled_from([0.0, 0.3, 1.0]),
    sx=logfl(1e-3, 0.8), sy=logfl(1e-3, 0.8), px=fl(-0.4, 0.4), py=fl(-0.4, 0.4), heavy=st.sampled_from([1.0, 18 * 1836.0]),
    lt=st.booleans(), n0=st.integers(0, 20))), quick=500, thorough=12000, shards=2)
def generate(s):
    c = s["ch"]
    ch = gen.build_chamber(c)
    X, Y = bu.half_size(c)
    r = gen.rng(s["seed"])
    mean = seeding.gas_mean(s["P"], s["sig"], s["T"], s["lam"], s["Dt"])
    m = impact.system(ch, mean / s["mean"], n_max=250000, mass=gen.M_E * s["heavy"],
                      charge=-QE if s["heavy"] == 1 else QE, lifetime=s["lt"])
    # storage behind the existing ones holds leftovers of removed macroparticles
    if s["lt"]:
        m.t_last_impact[:] = 3.3e-9
    m.z_mp[:] = 0.01
    for k in ("vx_mp", "vy_mp", "vz_mp"):
        getattr(m, k)[:] = 1e9
    px, py = s["px"] * X, s["py"] * Y
    if not gen.is_inside(c, np.array([px]), np.array([py]))[0][0]:
        px = py = 0.0
    impact.fill(m, c, r, s["n0"], 1e-8)
    old = impact.rows(m)
    g = pye.gas_ionization_class.residual_gas_ionization(s["uf"], s["P"], s["sig"], s["T"], ch, s["E"], s["lt"])
    sx, sy = s["sx"] * X, s["sy"] * Y
    cnt = seeding.Counter("gas ionization")
    n = s["n0"]
    calls = s["calls"] if s["mean"] < 60 else 3
    for _ in range(calls):
        out = g.generate(m, s["lam"], s["Dt"], sx, sy, x_beam_pos=px, y_beam_pos=py)
        require(out is m, "another system is returned")
        cnt.add(int(m.N_mp) - n, [s["mean"]])
        n = int(m.N_mp)
    cnt.close()
    now = impact.rows(m)
    require(np.array_equal(now[:, :s["n0"]], old), "existing macroparticles were changed")
    require(not np.any(m.nel_mp[n:]), "unused storage carries charge")
    new = now[:, s["n0"]:]
    if new.shape[1] == 0:
        return None
    require(np.all(new[6] == m.nel_mp_ref), "sizes differ from the reference size")
    require(np.all(np.isfinite(new)), "values that are not finite")
    if s["lt"]:
        require(np.all(new[7] == -1), "new macroparticles are not marked as never having impacted")
    ins, mm = gen.is_inside(c, new[0], new[1])
    require(np.all(ins | (mm < 1e-9 * X)), "macroparticles outside the chamber")
    Ek = 0.5 * m.mass * np.sum(new[3:6] ** 2, 0) / QE
    require(np.all(Ek <= s["E"] * (1 + 1e-9)), lambda: "kinetic energy %g eV, configured %g eV" % (np.max(Ek), s["E"]))
    require(np.max(Ek) > 0, "macroparticles without any velocity")
    judge(c, new[0], new[1], sample(c, r, 20000, sx, sy, px, py, s["uf"]), "uniform fraction %g" % s["uf"], px, py)
    return ["uf%g" % s["uf"], "many" if new.shape[1] >= 300 else "few", c["kind"]]


@check.sub("no-seeds", st.fixed_dictionaries(dict(which=st.sampled_from(["lam", "P", "Dt"]), seed=gen.seeds)), quick=12, thorough=60)
def none(s):
    """No beam, no gas or no time: nothing is created."""
    c = dict(kind="ellip", a=0.02, b=0.01)
    ch = gen.build_chamber(c)
    m = impact.system(ch, 1.0)
    impact.fill(m, c, gen.rng(s["seed"]), 5, 1e-8)
    old = impact.rows(m)
    v = dict(lam=1e11, P=30.0, Dt=1e-9)
    v[s["which"]] = 0.0
    g = pye.gas_ionization_class.residual_gas_ionization(0.3, v["P"], 1.5, 300.0, ch, 0.1, True)
    for _ in range(20):
        g.generate(m, v["lam"], v["Dt"], 1e-3, 1e-3)
    require(np.array_equal(impact.rows(m), old), "something was created")
    return s["which"]


beam = st.fixed_dictionaries(dict(ppb=logfl(1e10, 3e11), off=fl(0.2, 0.8), sz=fl(1.0, 3.0), sx=logfl(0.02, 0.3), sy=logfl(0.02, 0.3),
                                  px=fl(-0.4, 0.4), py=fl(-0.4, 0.4), coast=st.sampled_from([0.0, 0.0, 1e9]),
                                  pattern=st.lists(st.sampled_from([1.0, 1.0, 0.0]), min_size=1, max_size=3)))
gas = st.fixed_dictionaries(dict(rate=logfl(0.05, 20.0), sig=logfl(0.5, 5.0), T=logfl(5.0, 300.0), uf=st.sampled_from([0.0, 1.0, 0.5]),
                                 tion=st.sampled_from([None, None, 0.3, 0.7])))


@check.sub("simulation", st.fixed_dictionaries(dict(
    ch=bu.sim_chambers_all, seed=gen.seeds, Dt=st.sampled_from([1e-11, 2.5e-11]), steps=st.integers(8, 24), extra=st.integers(0, 6),
    beams=st.lists(beam, min_size=1, max_size=3), main=gas, second=st.one_of(st.none(), gas),
    profile=st.sampled_from([0, 0, 1, 2]))), quick=100, thorough=2500, shards=2)
def simulation(s):
    """Every step of a run: each cloud with its own gas parameters and reference size, every beam contributing."""
    c = s["ch"]
    X, Y = bu.half_size(c)
    s = dict(s, beams=[dict(b) for b in s["beams"]])
    for b in s["beams"]:
        if not gen.is_inside(c, np.array([b["px"] * X]), np.array([b["py"] * Y]))[0][0]:
            b["px"] = b["py"] = 0.0
    lam0 = s["beams"][0]["ppb"] / (s["steps"] * s["Dt"] * C)
    span = s["steps"] * s["Dt"] * len(s["beams"][0]["pattern"])
    def pars(g, ref):
        per = seeding.gas_mean(1.0, g["sig"], g["T"], lam0, s["Dt"])
        d = dict(gas_ion_flag=1, P_nTorr=g["rate"] * ref / per, sigma_ion_MBarn=g["sig"], Temp_K=g["T"], unif_frac=g["uf"],
                 E_init_ion=1e-13)
        return d, (1e3 if g["tion"] is None else g["tion"] * span)
    d, tion = pars(s["main"], 1e4)
    info = [(d, tion, s["main"])]
    clouds = {}
    if s["second"]:
        d2, tion2 = pars(s["second"], 3.3e3)
        clouds["ions.cloud"] = dict(d2, cloud_mass=18 * bu.MP, cloud_charge=QE, t_ion=tion2, nel_mp_ref_0=3.3e3,
                                    switch_model="perfect_absorber", init_unif_flag=0, init_unif_edens_flag=0, photoem_flag=0, N_sub_steps=1,
                                    logfile_path="./l2.txt", progress_path="./p2.txt")
        info.append((d2, tion2, s["second"]))
    with pye.TempDir():
        cfg = seeding.still_config(s, d, clouds, t_ion=tion, nel_mp_ref_0=1e4, **(dict(cloud_name="electrons") if clouds else {}))
        sim = bu.make(cfg)
        beams = [sim.beamtim] + list(sim.sec_beams_list)
        require(len(beams) == len(s["beams"]) and len(sim.cloud_list) == len(info), "numbers of beams and clouds")
        cnt = [seeding.Counter("cloud %d" % k) for k in range(len(info))]
        new = [[] for _ in info]
        lam = [np.array(b.lam_t_array, float) for b in beams]
        t = np.array(sim.beamtim.t, float)
        def each(cl, i, n, tab, dt):
            k = sim.cloud_list.index(cl)
            p, tion, _ = info[k]
            w = tab[:, n:]
            on = t[i] < tion
            require(abs(dt - (t[i + 1] - t[i])) < 1e-6 * dt, "step length")
            # (a stop time that coincides with a step is decided by rounding)
            if abs(t[i] - tion) > 1e-9 * tion:
                parts = [seeding.gas_mean(p["P_nTorr"], p["sigma_ion_MBarn"], p["Temp_K"], l[i], dt) / cl.MP_e.nel_mp_ref
                         if on else 0.0 for l in lam]
                cnt[k].add(w.shape[1], parts)
            require(np.all(w[6] == cl.MP_e.nel_mp_ref), "size of the new macroparticles")
            new[k].append(w)
        seeding.run(sim, cfg, each)
        made = 0
        r = gen.rng(s["seed"])
        for k, cl in enumerate(sim.cloud_list):
            cnt[k].close()
            w = np.concatenate(new[k], 1)
            made += w.shape[1]
            ins, mm = gen.is_inside(c, w[0], w[1])
            require(np.all(ins | (mm < 1e-9 * X)), "macroparticles outside the chamber")
            require(abs(cl.MP_e.nel_mp_ref - (1e4, 3.3e3)[k]) < 1e-9, "reference size of cloud %d" % k)
            # expected mixture of beams, over the steps in which this cloud is fed
            wt = np.array([np.sum((l[:-1] * np.diff(t))[t[:-1] < info[k][1]]) for l in lam])
            if w.shape[1] >= 300 and wt.sum() > 0:
                parts = []
                nb = r.multinomial(20000, wt / wt.sum())
                for b, q in zip(s["beams"], nb):
                    parts.append(sample(c, r, q, b["sx"] * X, b["sy"] * Y, b["px"] * X, b["py"] * Y, info[k][2]["uf"]))
                ref = np.concatenate([a[0] for a in parts]), np.concatenate([a[1] for a in parts])
                # numbers per beam are less random than a multinomial draw
                judge(c, w[0], w[1], ref, "cloud %d" % k, 0.0, 0.0)
    if made:
        return ["beams%d" % len(beams), "clouds%d" % len(info)] + (["profile"] if s["profile"] else [])


@check.sub("passage", st.fixed_dictionaries(dict(
    cl=ht.cloud_spec, b=ht.bunch_spec, n=st.integers(1, 6), rate=logfl(0.3, 400.0), sig=logfl(0.2, 20.0), T=logfl(5.0, 400.0),
    sx=logfl(1e-3, 0.05), sy=logfl(1e-3, 0.05), apart=st.lists(st.booleans(), min_size=6, max_size=6), sub=st.booleans(), heavy=st.booleans())),
    quick=120, thorough=3000, shards=2)
def passage(s):
    """Slices of a bunch traversing the cloud as an element of a ring ionize the gas where they are, in proportion to their charge."""
    c = dict(s["cl"], nmp=50)
    b = dict(s["b"], sx=s["sx"], sy=s["sy"], wide=False)
    X, Y = bu.half_size(c["ch"])
    from PyHEADTAIL.particles.slicing import UniformBinSlicer
    sl = UniformBinSlicer(s["n"])
    p = ht.bunch(b, c["ch"])
    dz = float(np.mean(np.diff(p.get_slices(sl).z_bins)))
    p.clean_slices()
    dt = dz / (p.beta * C)
    lam0 = b["ppb"] / s["n"] / dz
    ref = 1e3
    P = s["rate"] * ref / seeding.gas_mean(1.0, s["sig"], s["T"], lam0, dt)
    cfg = ht.config(dict(c, Dt=None), dt)
    cfg["machine"].update(init_unif_flag=0, gas_ion_flag=1, P_nTorr=P, sigma_ion_MBarn=s["sig"], Temp_K=s["T"], unif_frac=0.0, E_init_ion=0.3)
    # (elements with a time step refuse longer interacting slices; the others are done in several steps)
    cfg["sim"].update(t_ion=1e9, nel_mp_ref_0=ref, Dt=dt * 0.4 if s["sub"] else None)
    if s["heavy"]:
        cfg["sim"].update(cloud_mass=28 * bu.MP, cloud_charge=QE)
    labels, u, v = set(), [], []
    with pye.TempDir():
        ec = ht.ecloud(c, cfg, dt, sl, True)
        m = ec.cloudsim.cloud_list[0].MP_e
        require(m.N_mp == 0, "macroparticles before anything happened")
        cnt = seeding.Counter("ionization by slices")
        ox, oy = ht.offsets(c)
        pieces = [w for w in p.extract_slices(sl) if not isinstance(w.slice_info, str)]
        for w, apart in zip(pieces[::-1], s["apart"]):
            if s["sub"]:
                apart = True
            w.slice_info["interact_with_EC"] = not apart
            m.nel_mp[:m.N_mp] = 0
            m.N_mp = 0
            ec.track(w)
            n = int(m.N_mp)
            k = w.macroparticlenumber
            if apart or k == 0:
                require(n == 0, "%d macroparticles from %s" % (n, "a slice that does not interact" if apart else "an empty slice"))
                labels.add("apart" if apart else "empty")
                continue
            x, y = np.array(w.x) + ox, np.array(w.y) + oy
            cx, cy, dx, dy = x.mean(), y.mean(), x.std(), y.std()
            # a beam well inside of the chamber
            a = np.linspace(0, 2 * np.pi, 24, endpoint=False)
            if not gen.is_inside(c["ch"], np.append(cx + 8 * dx * np.cos(a), cx), np.append(cy + 8 * dy * np.sin(a), cy))[0].all():
                labels.add("near the wall")
                if not gen.is_inside(c["ch"], np.array([cx]), np.array([cy]))[0][0]:
                    return
            else:
                for z, cen, dev, out, nm in ((m.x_mp[:n], cx, dx, u, "x"), (m.y_mp[:n], cy, dy, v, "y")):
                    if dev > 1e-9 * X:
                        out.append((z - cen) / dev)
                    else:
                        require(np.all(np.abs(z - cen) <= 1e-8 * X), "electrons away from a single particle, " + nm)
            cnt.add(n, [seeding.gas_mean(P, s["sig"], s["T"], k * w.particlenumber_per_mp / dz, dt) / ref])
            require(np.all(m.nel_mp[:n] == ref), "size of the new macroparticles")
            labels |= {"created"} if n else set()
        cnt.close()
        for q, nm in ((u, "x"), (v, "y")):
            if q:
                seeding.gauss(np.concatenate(q), "distance from the centre of the slice, " + nm)
    return sorted(labels) if "created" in labels else None

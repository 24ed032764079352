"""C15: cross-ionization between clouds."""
import os
from types import SimpleNamespace

import numpy as np
import scipy.io as sio
from hypothesis import strategies as st

from vlib import buildup as bu, gen, impact, pye, seeding
from vlib.harness import Check, require

fl, logfl = gen.fl, gen.logfl
QE, MP = gen.E_CH, bu.MP
TOL = 2e-10                     # of the position within a table, per entry

check = Check("C15", rule="a case is non-trivial when collisions with a non-zero cross-section happened and their products were judged",
              assumptions=["numbers of macroparticles: 7 standard deviations over all projectiles of a history",
                           "target line density followed to 0.01 per metre", "tables start at 0.1 eV or above"])

table = st.fixed_dictionaries(dict(log=st.booleans(), lo=logfl(0.1, 50.0), span=logfl(3.0, 1e3), n=st.integers(3, 400), seed=gen.seeds,
                                   mag=logfl(1e-18, 1e-14), round=st.sampled_from([None, None, 6]), zero=st.booleans()))


def tab(t):
    r = gen.rng(t["seed"])
    hi = t["lo"] * t["span"]
    e = np.logspace(np.log10(t["lo"]), np.log10(hi), t["n"]) if t["log"] else np.linspace(t["lo"], hi, t["n"])
    s = t["mag"] * (0.2 + r.rand(t["n"])) * np.exp(-np.linspace(0, 2, t["n"]))
    if t["zero"]:
        s[0] = 0.0
    return e, s


def sigma_m2(t, en):
    e, s = tab(t)
    f = np.log10 if t["log"] else (lambda q: q)
    return np.where((en < e[0]) | (en > e[-1]), 0.0, np.interp(f(en), f(e), s)) * 1e-4


def steep(t):
    """Largest change of the cross section between two entries, as the scale of interpolation errors."""
    e, s = tab(t)
    return np.max(np.abs(np.diff(s))) * 1e-4


names = ("electron", "ion", "heavy", "other")


def clouds(s, r):
    """name -> cloud with the projectile populations of the spec."""
    ch = pye.geom_impact_ellip.ellip_cham_geom_object(0.02, 0.015, flag_verbose_file=False)
    out = []
    for k, d in enumerate(s["clouds"]):
        m = impact.system(ch, d["ref"], n_max=300000, mass=gen.M_E if d["mass"] is None else d["mass"] * MP,
                          charge=-QE if d["mass"] is None else QE, lifetime=s["lt"])
        if s["lt"]:
            m.t_last_impact[:] = 2.2e-9
        m.z_mp[:] = 0.01
        out.append(SimpleNamespace(name=names[k], MP_e=m))
    return out


def populate(cl, n, elo, ehi, r, scale=1.0):
    m = cl.MP_e
    if n == 0:
        return
    en = 10 ** (np.log10(elo) + (np.log10(ehi) - np.log10(elo)) * r.rand(n))
    u = r.randn(3, n)
    v = u / np.sqrt((u ** 2).sum(0)) * np.sqrt(2 * en * QE / m.mass)
    m.add_new_MPs(n, m.nel_mp_ref * scale * 10 ** (-1 + 2 * r.rand(n)), 0.005 * r.randn(n), 0.004 * r.randn(n),
                  0.01 * r.randn(n), v[0], v[1], v[2], r.rand(n) * 1e-9)


proc = st.fixed_dictionaries(dict(t=table, dens=logfl(1e12, 1e22), frac=st.sampled_from([0.0, 0.02, 0.3]), E=logfl(0.01, 30.0),
                                  eq=st.sampled_from([None, False, True]), prod=st.integers(1, 15)))


def definitions(s, folder="."):
    """Writes the tables; the definitions and the list of processes (projectile, name, spec, products)."""
    nc = len(s["clouds"])
    defs, lst = {}, []
    for k, ps in enumerate(s["procs"][:nc]):
        if not ps:
            continue
        defs[names[k]] = {}
        for j, p in enumerate(ps):
            fn = "cs_%d_%d.mat" % (k, j)
            e, sg = tab(p["t"])
            sio.savemat(os.path.join(folder, fn), dict(energy_eV=e, cross_section_cm2=sg), oned_as="row")
            prod = [names[i] for i in range(nc) if p["prod"] >> i & 1] or [names[(k + 1) % nc]]
            d = dict(target_density=p["dens"], E_eV_init=p["E"], cross_section=[fn, fn[:-4]][j % 2], products=prod,
                     extract_sigma=False)
            if p["eq"] is not None:
                d["generate_equally"] = p["eq"]
            defs[names[k]]["p%d" % j] = d
            lst.append((names[k], "p%d" % j, p, prod))
    return defs, lst


def velocities(m, a, b, E, what):
    """No component of new macroparticles (rows a to b) exceeds the one of an initial energy E."""
    v = np.array([m.vx_mp[a:b], m.vy_mp[a:b], m.vz_mp[a:b]])
    e = 0.5 * m.mass * (v ** 2).sum(0) / QE
    require(np.all(e <= E * (1 + 1e-9)), lambda: "%s: energy %.3e eV above the initial energy %.3e eV" % (what, e.max(), E))


# ------------------------------------------------------------------ cross section

@check.sub("sigma", st.fixed_dictionaries(dict(t=table, seed=gen.seeds, dens=logfl(1e8, 1e20), Dt=logfl(1e-12, 1e-9),
                                               ref=logfl(1.0, 1e8), mass=st.sampled_from([None, 2.0]))), quick=500, thorough=6000)
def sigma(s):
    r = gen.rng(s["seed"])
    t = s["t"]
    spec = dict(clouds=[dict(ref=s["ref"], mass=s["mass"]), dict(ref=1e30, mass=18.0)], lt=True,
                procs=[[dict(t=t, dens=s["dens"], E=0.1, eq=None, prod=2)]])
    e, sg = tab(t)
    with pye.TempDir():
        cl = clouds(spec, r)
        ci = pye.cross_ionization.Cross_Ionization("./", definitions(spec)[0], cl, 1e12)
    m = cl[0].MP_e
    en = np.concatenate([e[[0, 1, -2, -1]] * (1 + np.array([1e-7, 1e-7, -1e-7, -1e-7])), e[r.randint(1, len(e) - 1, 3)],
                         e[0] + (e[-1] - e[0]) * r.rand(5), np.exp(np.log(e[0]) + np.log(e[-1] / e[0]) * r.rand(5)),
                         [e[0] * 0.99, e[0] * 0.3, e[-1] * 1.01, e[-1] * 20, 1e-9, 0.0]])
    got = []
    for x in en:
        m.N_mp = 0
        v = np.sqrt(2 * x * QE / m.mass)
        u = r.randn(3); u /= np.sqrt((u ** 2).sum())
        m.add_new_MPs(1, np.array([s["ref"]]), np.zeros(1), np.zeros(1), np.zeros(1), v * u[:1], v * u[1:2], v * u[2:], -1)
        ci.generate(s["Dt"], cl)
        dn = ci.save_cross_ion_data("ion")[2]
        got.append(dn / (s["dens"] * s["Dt"] * s["ref"] * v) if v > 0 else dn)
    got = np.array(got)
    want = sigma_m2(t, en)
    tol = 1e-6 * want + TOL * steep(t) * len(e) + 1e-40
    k = int(np.argmax(np.abs(got - want) / tol))
    require(np.all(np.abs(got - want) <= tol),
            lambda: "cross section at %.6g eV is %.6e m2, table (%g to %g eV, %s) gives %.6e" %
            (en[k], got[k], e[0], e[-1], "log" if t["log"] else "linear", want[k]))
    require(np.all(got[want == 0] == 0), "collisions outside the table")
    return "log" if t["log"] else "linear"


# ------------------------------------------------------------------ histories

cloud_spec = st.fixed_dictionaries(dict(ref=logfl(1e2, 1e7), mass=st.sampled_from([None, None, 2.0, 28.0])))
op = st.one_of(st.tuples(st.just("gen"), logfl(1e-12, 1e-10)), st.tuples(st.just("gen"), logfl(1e-12, 1e-10)),
               st.tuples(st.just("report"), st.integers(0, 3)), st.tuples(st.just("fill"), st.integers(0, 40)))


@check.sub("history", st.fixed_dictionaries(dict(
    clouds=st.lists(cloud_spec, min_size=2, max_size=4), procs=st.lists(st.lists(proc, min_size=0, max_size=2), min_size=1, max_size=4),
    seed=gen.seeds, ops=st.lists(op, min_size=3, max_size=14), n=st.integers(1, 200), mean=logfl(0.01, 20.0),
    order=st.booleans(), lt=st.booleans())), quick=600, thorough=8000, shards=2)
def history(s):
    r = gen.rng(s["seed"])
    if not any(s["procs"][:len(s["clouds"])]):
        return None
    with pye.TempDir():
        cl = clouds(s, r)
        by = {c.name: c for c in cl}
        # target densities such that some macroparticles appear in each step
        for k, ps in enumerate(s["procs"][:len(cl)]):
            for p in ps:
                e, sg = tab(p["t"])
                m = cl[k].MP_e
                v = np.sqrt(2 * np.sqrt(e[0] * e[-1]) * QE / m.mass)
                p["dens"] = s["mean"] * cl[-1].MP_e.nel_mp_ref / (np.mean(sg) * 1e-4 * v * 2e-11 * m.nel_mp_ref)
        # area such that the first step removes a fraction of some target
        sp = dict(s)
        defs, lst = definitions(sp)
        area = 1e-3
        fr = max([p["frac"] for _, _, p, _ in lst])
        if fr > 0:
            for nm, _, p, _ in lst:
                if p["frac"] == fr:
                    area = s["mean"] * cl[-1].MP_e.nel_mp_ref * s["n"] * 5 / (p["dens"] * fr)
        area = max(area, 1e7 / min(p["dens"] for _, _, p, _ in lst))
        ci = pye.cross_ionization.Cross_Ionization("./", defs, list(cl), area)
    es = [tab(p["t"])[0] for _, _, p, _ in lst]
    elo, ehi = min(e[0] for e in es) * 0.5, max(e[-1] for e in es) * 2
    for c in cl:
        populate(c, s["n"] if c.name in defs else r.randint(0, 5), elo, ehi, r)
    dens = {(a, b): p["dens"] for a, b, p, _ in lst}
    acc = {c.name: np.zeros(4) for c in cl}      # the last one: uncertainty of the number of ionizations
    counter = {}
    hit = False
    for what, arg in [tuple(o) for o in s["ops"]] + [("gen", 2e-11), ("report", 9)]:
        if what == "fill":
            c = cl[arg % len(cl)]
            populate(c, arg, elo, ehi, r)
        elif what == "report":
            for c in cl[:1 + arg]:
                got = np.array(ci.save_cross_ion_data(c.name), float)
                require(np.all(np.abs(got - acc[c.name][:3]) <= 1e-9 * np.abs(acc[c.name][:3]) + 1e-12 +
                               np.array([0, 0, acc[c.name][3]])),
                        lambda: "report of %s: charge %.8e, macroparticles %g, ionizations %.8e; added since the last report "
                        "%.8e, %g, %.8e" % ((c.name,) + tuple(got) + tuple(acc[c.name][:3])))
                acc[c.name][:] = 0
        else:
            if any(c.MP_e.N_mp > 20000 for c in cl):
                continue
            before = {c.name: impact.rows(c.MP_e) for c in cl}
            want = {}      # product -> list of (projectile rows, expected charge per projectile, macroparticle size)
            dn_by = {}
            deps = {}
            too_much = False
            for a, b, p, prod in lst:
                m = by[a].MP_e
                R = before[a]
                v = np.sqrt((R[3:6] ** 2).sum(0))
                en = 0.5 * m.mass * v ** 2 / QE
                d = sigma_m2(p["t"], en) * dens[a, b] * v * arg * R[6]
                err = 1e-6 * d + TOL * steep(p["t"]) * p["t"]["n"] * dens[a, b] * v * arg * R[6]
                deps[a, b] = (d.sum(), err.sum())
                small = min(by[q].MP_e.nel_mp_ref for q in prod)
                if d.sum() > 0.6 * dens[a, b] * area or d.sum() > 3000 * small:
                    too_much = True
                size = np.mean([by[q].MP_e.nel_mp_ref for q in prod])
                for q in prod:
                    want.setdefault(q, []).append((a, b, R, d, size if p["eq"] else by[q].MP_e.nel_mp_ref, p))
                    dn_by[q] = dn_by.get(q, 0.0) + np.array([d.sum(), err.sum()])
            if too_much:
                continue
            lst_in = list(cl)
            if s["order"]:
                lst_in = lst_in[::-1]
            ci.generate(arg, lst_in)
            for c in cl:
                m = c.MP_e
                old = before[c.name]
                n0 = old.shape[1]
                now = impact.rows(m)
                require(np.array_equal(now[:, :n0], old), lambda: "macroparticles of %s already there have changed" % c.name)
                new = now[:, n0:]
                k = new.shape[1]
                acc[c.name] += [new[6].sum(), k] + list(dn_by.get(c.name, np.zeros(2)))
                if c.name not in want:
                    require(k == 0, lambda: "%d macroparticles appeared in %s, which is no product" % (k, c.name))
                    continue
                w = want[c.name]
                if k:
                    sizes = sorted({x[4] for x in w})
                    near = np.array([sizes[int(np.argmin(np.abs(np.array(sizes) - q)))] for q in new[6]])
                    require(np.all(np.abs(new[6] / near - 1) < 1e-9),
                            lambda: "products in %s carry %s, expected %s" % (c.name, sorted(set(new[6]))[:4], sizes))
                    require(np.all(new[7] == -1), lambda: "products in %s are marked as having hit the wall" % c.name)
                    velocities(m, n0, n0 + k, max(x[5]["E"] for x in w), "products in %s" % c.name)
                    # each product sits on a projectile with collisions
                    pos = np.concatenate([x[2][:3][:, x[3] > 0] for x in w], axis=1).T
                    st_ = {tuple(q) for q in pos.tolist()}
                    bad = [q for q in new[:3].T.tolist() if tuple(q) not in st_]
                    require(not bad, lambda: "product in %s at %s, where no projectile that can ionize is" % (c.name, bad[0]))
                    hit = True
                # numbers, for each size of macroparticles, in all and with a random sign for each projectile position
                for size in {x[4] for x in w}:
                    pos = np.concatenate([x[2][:3] for x in w if x[4] == size], axis=1).T
                    parts = np.concatenate([x[3] for x in w if x[4] == size]) / size
                    sign = {}
                    for q in pos.tolist():
                        sign.setdefault(tuple(q), 1.0 if r.rand() < 0.5 else -1.0)
                    sg = np.array([sign[tuple(q)] for q in pos.tolist()])
                    mine = np.abs(new[6] / size - 1) < 1e-9
                    sn = np.array([sign.get(tuple(q), 1.0) for q in new[:3].T[mine].tolist()])
                    f = parts % 1.0
                    g = counter.setdefault((c.name, size), np.zeros(6))
                    g += [mine.sum(), parts.sum(), (f * (1 - f)).sum(), sum(deps[x[0], x[1]][1] for x in w if x[4] == size) / size,
                          sn.sum(), (sg * parts).sum()]
            # products of equal generation
            for a, b, p, prod in lst:
                alone = all(not (set(prod) & set(q[3])) for q in lst if (q[0], q[1]) != (a, b))
                if p["eq"] and alone and len(prod) > 1:
                    ref = None
                    for q in prod:
                        R = impact.rows(by[q].MP_e)[:, before[q].shape[1]:]
                        R = impact.sort_rows(R[[0, 1, 2, 6]])
                        if ref is None:
                            ref = R
                        require(R.shape == ref.shape and np.array_equal(R, ref),
                                lambda: "equal generation: %d macroparticles of %s, %d of %s, not the same" %
                                (ref.shape[1], prod[0], R.shape[1], q))
            # depletion as seen by the next step
            for key, (dn, err) in deps.items():
                dens[key] -= dn / area
                p = [q for q in lst if (q[0], q[1]) == key][0]
    for key, (k, mean, var, err, k2, mean2) in counter.items():
        tol = 7 * np.sqrt(var) + 2 + err + 1e-5 * mean
        require(abs(k - mean) <= tol, lambda: "%d macroparticles of %.3g created in %s, expected %.2f (standard deviation %.2f)" %
                (k, key[1], key[0], mean, np.sqrt(var)))
        require(abs(k2 - mean2) <= tol, lambda: "macroparticles of %.3g in %s are not distributed over their projectiles as the "
                "collisions (signed sum %g, expected %.2f, standard deviation %.2f)" % (key[1], key[0], k2, mean2, np.sqrt(var)))
    if not hit:
        return None
    return ["equal" if any(p["eq"] for _, _, p, _ in lst) else "separate", "depletion" if fr else "plenty"]


# ------------------------------------------------------------------ consistency test at set-up

@check.sub("extraction", st.fixed_dictionaries(dict(t=table, seed=gen.seeds, dens=logfl(1e16, 1e22), n=st.integers(200, 400),
                                                    eq=st.booleans(), k=st.integers(1, 2))), quick=80, thorough=600)
def extraction(s):
    r = gen.rng(s["seed"])
    t = dict(s["t"], n=max(s["t"]["n"], 5))
    e, sg = tab(t)
    en = np.exp(np.log(e[0]) + np.log(e[-1] / e[0]) * r.rand(15)) * np.where(r.rand(15) < 0.8, 1, 30)
    en.sort()
    ref = 1e5
    spec = dict(clouds=[dict(ref=ref, mass=None), dict(ref=ref * 2, mass=2.0)], lt=True,
                procs=[[dict(t=t, dens=s["dens"], E=0.1, eq=s["eq"], prod=[2, 3][s["k"] - 1])]])
    Dt = 3.0 / (np.mean(sg) * 1e-4 * s["dens"] * np.sqrt(2 * np.median(en) * QE / gen.M_E))
    area = s["n"] * ref * 20 / s["dens"]
    with pye.TempDir():
        cl = clouds(spec, r)
        defs, lst = definitions(spec)
        defs["electron"]["p0"].pop("extract_sigma")
        ci = pye.cross_ionization.Cross_Ionization("./", defs, cl, area, n_rep_test=s["n"], Dt_test=Dt, energy_eV_test=en)
        require(os.path.exists("cs_0_0_extracted.mat"), "no file with the extracted cross section")
        d = sio.loadmat("cs_0_0_extracted.mat")
        require(all(c.MP_e.N_mp == 0 for c in cl), "the consistency test has filled a cloud")
    want = sigma_m2(t, en) * 1e4
    tol = 1e-5 * want + TOL * len(e) * steep(t) * 1e4
    require(np.allclose(d["energy_eV"].ravel(), en) and np.all(np.abs(d["sigma_cm2_interp"].ravel() - want) <= tol),
            "interpolated cross section saved by the consistency test")
    for q in lst[0][3]:
        size = np.mean([by_ref(cl, z) for z in lst[0][3]]) if s["eq"] else by_ref(cl, q)
        got = d["sigma_cm2_sampled_" + q].ravel()
        v = np.sqrt(2 * en * QE / gen.M_E)
        unit = size / (s["dens"] * v * Dt * s["n"] * ref) * 1e4          # one macroparticle
        sd = unit * np.sqrt(s["n"] * 0.25)
        require(np.all(np.abs(got - want) <= 7 * sd + 2 * unit + 1e-3 * want),
                lambda: "sampled cross section of %s: %s, table %s" % (q, got, want))
    # the target is still complete: a step gives the full rate
    m = cl[0].MP_e
    x = np.sqrt(e[0] * e[-1])
    v = np.sqrt(2 * x * QE / m.mass)
    one = np.ones(1)
    m.add_new_MPs(1, ref * one, 0 * one, 0 * one, 0 * one, v * one, 0 * one, 0 * one, -1)
    ci.generate(1e-3 * Dt, cl)
    for q in lst[0][3]:
        dn = ci.save_cross_ion_data(q)[2]
        w = sigma_m2(t, np.array([x]))[0] * s["dens"] * v * 1e-3 * Dt * ref
        require(abs(dn / w - 1) < 1e-6, lambda: "first step after the consistency test gives %.6e ionizations, expected %.6e" % (dn, w))
    return "extraction"


def by_ref(cl, name):
    return [c for c in cl if c.name == name][0].MP_e.nel_mp_ref


# ------------------------------------------------------------------ set-ups that make no sense

@check.sub("refused", st.fixed_dictionaries(dict(t=table, seed=gen.seeds, kind=st.sampled_from(["proj", "prod", "steps", "file"]))),
           quick=80, thorough=400)
def refused(s):
    r = gen.rng(s["seed"])
    t = dict(s["t"], n=max(s["t"]["n"], 6))
    spec = dict(clouds=[dict(ref=1e5, mass=None), dict(ref=1e5, mass=2.0)], lt=True,
                procs=[[dict(t=t, dens=1e15, E=0.1, eq=None, prod=2)]])
    with pye.TempDir():
        cl = clouds(spec, r)
        defs, _ = definitions(spec)
        if s["kind"] == "proj":
            defs["proton"] = defs.pop("electron")
        elif s["kind"] == "prod":
            defs["electron"]["p0"]["products"] = ["ion", "proton"]
        elif s["kind"] == "file":
            defs["electron"]["p0"]["cross_section"] = "none.mat"
        else:
            e, sg = tab(t)
            k = 1 + r.randint(len(e) - 2)
            e[k] = e[k - 1] + (e[k + 1] - e[k - 1]) * (0.2 if r.rand() < 0.5 else 0.85)
            sio.savemat("cs_0_0.mat", dict(energy_eV=e, cross_section_cm2=sg))
        try:
            pye.cross_ionization.Cross_Ionization("./", defs, cl, 1e-3)
        except Exception:
            return s["kind"]
    require(False, "accepted: " + s["kind"])


# ------------------------------------------------------------------ in simulations

BEAM = st.fixed_dictionaries(dict(ppb=logfl(1e10, 3e11), off=fl(0.2, 0.8), sz=fl(1.0, 3.0), sx=st.just(0.1), sy=st.just(0.1),
                                  px=st.just(0.0), py=st.just(0.0), pattern=st.lists(st.sampled_from([1.0, 0.5]), min_size=1, max_size=2)))

@check.sub("simulation", st.fixed_dictionaries(dict(
    ch=bu.sim_chambers, seed=gen.seeds, beams=st.lists(BEAM, min_size=1, max_size=1), Dt=st.sampled_from([1e-11, 2.5e-11]),
    steps=st.integers(6, 14), extra=st.integers(0, 5), dec=st.sampled_from([1, 1, 3]), t=table, t2=table, two=st.booleans(),
    eq=st.booleans(), mean=logfl(0.05, 5.0), n=st.integers(5, 60), frac=st.sampled_from([0.02, 0.3]), profile=st.sampled_from([0, 0, 1, 2, 3]))), quick=120, thorough=1200, shards=2)
def simulation(s):
    c = s["ch"]
    X, Y = bu.half_size(c)
    e, sg = tab(s["t"])
    ref = 1e5
    E0 = float(np.sqrt(e[0] * e[-1]))
    r = gen.rng(s["seed"])
    v = np.sqrt(2 * E0 * QE / gen.M_E)
    area0 = X * Y * np.pi
    dens = s["mean"] * ref / (np.mean(sg) * 1e-4 * v * s["Dt"] * ref)
    # the clouds do not move (they are put back), so that every step has the same projectiles
    defs = {"electron": {"a": dict(target_density=dens, E_eV_init=0.5, extract_sigma=False, cross_section="cs.mat",
                                   products=["electron", "ion"], generate_equally=s["eq"])}}
    if s["two"]:
        defs["ion"] = {"b": dict(target_density=dens * 0.5, E_eV_init=0.2, extract_sigma=False, cross_section="cs2.mat",
                                 products=["ion"])}
    ion = dict(cloud_mass=2 * MP, cloud_charge=QE, gas_ion_flag=0, photoem_flag=0, init_unif_flag=0, init_unif_edens_flag=0,
               switch_model="perfect_absorber", N_mp_regen=10 ** 9, nel_mp_ref_0=ref * 2, logfile_path="./logfile_ions.txt",
               progress_path="./progress_ions.txt", N_sub_steps=1)
    mach = dict(init_unif_flag=1, Nel_init_unif=ref * s["n"], E_init_unif=12 * E0, x_max_init_unif=X, x_min_init_unif=-X,
                y_max_init_unif=Y, y_min_init_unif=-Y)
    cfg = seeding.still_config(s, mach, clouds={"ion.cloud": ion}, cloud_name="electron", additional_clouds_file_list=["ion.cloud"],
                               cross_ion_definitions=defs, nel_mp_ref_0=ref, dec_fact_out=s["dec"], N_mp_max=200000)
    cfg["mats"]["cs.mat"] = dict(energy_eV=e, cross_section_cm2=sg)
    e2, sg2 = tab(s["t2"])
    cfg["mats"]["cs2.mat"] = dict(energy_eV=e2, cross_section_cm2=sg2)
    with pye.TempDir():
        sim = bu.make(cfg)
        area = sim.chamb.area
        by = {k.name: k for k in sim.cloud_list}
        log = []
        real = sim.cross_ion.generate

        def watch(*a, **k):
            before = {n: impact.rows(q.MP_e) for n, q in by.items()}
            real(*a, **k)
            log.append((float(sim.beamtim.tt_curr), before, {n: impact.rows(q.MP_e) for n, q in by.items()}))
        sim.cross_ion.generate = watch
        sp = bu.Stepper(sim)
        d = {("electron", "a"): dens, ("ion", "b"): dens * 0.5}
        while sp.step():
            # only one species of collisions per step
            if by["electron"].MP_e.N_mp > 3000:
                break
        out = {"electron": bu.load_out("Pyecltest.mat") if os.path.exists("Pyecltest.mat") else None}
        import glob
        files = sorted(glob.glob("Pyecltest*.mat"))
        outs = {f: bu.load_out(f) for f in files}
    ts = [q[0] for q in log]
    require(np.allclose(ts, sp.t[:len(ts)]), "cross-ionization is not applied once per time step")
    hs = np.diff(sp.t)
    rec = {n: [] for n in by}
    for h, (tt, b, a) in zip(hs, log):
        dn = {"electron": 0.0, "ion": 0.0}
        for (proj, nm), p in [(("electron", "a"), s["t"])] + ([(("ion", "b"), s["t2"])] if s["two"] else []):
            R = b[proj]
            vv = np.sqrt((R[3:6] ** 2).sum(0))
            k = (sigma_m2(p, 0.5 * by[proj].MP_e.mass * vv ** 2 / QE) * d[proj, nm] * vv * h * R[6]).sum()
            d[proj, nm] -= k / area
            dn["ion"] += k
            if proj == "electron":
                dn["electron"] += k
        for n in by:
            require(np.array_equal(a[n][:, :b[n].shape[1]], b[n]), "macroparticles already there have changed")
            new = a[n][:, b[n].shape[1]:]
            rec[n].append([new[6].sum(), new.shape[1], dn[n]])
        if s["eq"] and not s["two"]:
            x, y = (impact.sort_rows(a[n][:, b[n].shape[1]:][[0, 1, 2, 6]]) for n in ("electron", "ion"))
            require(np.array_equal(x, y), "equal generation: pairs differ")
    tot = 0
    for f, o in outs.items():
        if "Nel_cross_ion" not in o:
            continue
        n = "ion" if "ion" in f else "electron"
        t = o["t"].ravel()
        q = np.array([o["Nel_cross_ion"].ravel(), o["N_mp_cross_ion"].ravel(), o["DN_cross_ion"].ravel()], float)
        last = -1
        for j, tj in enumerate(t):
            i = int(np.argmin(np.abs(np.array(ts) - tj)))
            w = np.sum(rec[n][last + 1:i + 1], axis=0)
            last = i
            tol = np.array([1e-9, 1e-9, 2e-4]) * np.abs(w) + 1e-9
            require(np.all(np.abs(q[:, j] - w) <= tol), lambda: "%s at t = %.4g s: charge, macroparticles and ionizations since the "
                    "last sample %s, expected %s" % (n, tj, list(q[:, j]), list(w)))
            tot += w[1]
    return ["simulation", "two" if s["two"] else "one", "nonunif" if s["profile"] else "unif"] if tot else None

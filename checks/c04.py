"""C04: mean emitted charge and reflected/true split of every emission model against its published law."""
import os
import numpy as np
from hypothesis import strategies as st

from vlib import pye, gen, sey
from vlib.harness import Check, require

check = Check("C04", rule="a (model, parameters, energy, cosine) combination whose expected yield is above 1e-3 was "
              "compared with at least 2000 emitted samples or exactly",
              assumptions=["random yields are compared through their mean, with 7 standard errors",
                           "Furman-Pivi: delta_e + delta_r < 1 (otherwise the code must refuse), and the true-secondary "
                           "count is a Poisson number cut at M_cut",
                           "tables start at zero energy; fitted extrapolations as configured"])


def energies(m):
    return st.one_of(gen.logfl(1e-3, 1e5), gen.fl(0.01, 1500))


combo = lambda models: models.flatmap(lambda m: st.fixed_dictionaries(dict(
    m=st.just(m), pts=st.lists(st.tuples(energies(m), st.one_of(gen.fl(0, 1), st.sampled_from([0.0, 1.0, 1.0]))),
                               min_size=1, max_size=6), seed=gen.seeds)))
REP = 3000


RANDOM_TOTAL = ("ACC_LOW", "furman_pivi")       # the others give every impact exactly its mean yield


def mean_check(x, exp, what, var=None, rare=True):
    n = len(x)
    mu = x.mean()
    se = np.sqrt(max(x.var(), 0 if var is None else var) / n)
    # `rare`: an outcome of probability below ~20/n may not have been drawn at all
    require(abs(mu - exp) <= 7 * se + 1e-9 * max(exp, 1e-6) + 20.0 / n * rare * max(x.max(), 1.0),
            "%s: mean %g, expected %g (standard error %g)" % (what, mu, exp, se))


def run_model(m, mod, pts, r, partsfn=None, segs=None):
    lab = None
    for E0, c0 in pts:
        n = REP
        E, c = np.full(n, E0), np.full(n, c0)
        nel = 0.5 + r.rand(n)
        b = sey.impact_batch(r, n, E, c, nel=nel, segs=None if segs is None else np.full(n, segs))
        if m["model"] == "furman_pivi":
            de, dr, dt = sey.fp_parts(m, E[:1], c[:1])
            if de + dr >= 0.99:
                continue
        out = sey.impacts(mod, b)
        tot = out["nel_emit_tot_events"]
        require(tot.shape == (n,) and np.all(np.isfinite(tot)) and np.all(tot >= 0), "emitted charge is negative or not finite")
        exp = [float(p[0]) for p in (partsfn or (lambda E, c: sey.parts(m, E, c)))(E[:1], c[:1])]
        ev = np.asarray(out["event_type"]).astype(int)
        y = tot / nel
        what = "%s at E=%g eV, cos=%g" % (m["model"], E0, c0)
        # variance that a 0/1 choice alone gives
        mean_check(y, sum(exp), what + ", total yield", rare=m["model"] in RANDOM_TOTAL)
        el, tr = exp[0], exp[2]
        scale = max(y.max(), 1e-12)
        if m["model"] != "perfect_absorber":
            p = min(max(el / max(scale, 1e-300), 0), 1)
            mean_check(np.where(ev == 0, y, 0), el, what + ", reflected part", var=p * (1 - p) * scale ** 2)
            p = min(max(tr / max(scale, 1e-300), 0), 1)
            mean_check(np.where(ev == 1, y, 0), tr, what + ", true secondary part", var=p * (1 - p) * scale ** 2)
            if m["model"] == "furman_pivi":
                mean_check(np.where(ev == 2, y, 0), exp[1], what + ", rediffused part", var=.25)
                require(np.all((ev != 3) | (tot == 0)), what + ": an absorbed impact emits")
        else:
            require(np.all(tot == 0), "the perfect absorber emits")
        if sum(exp) > 1e-3 or m["model"] == "perfect_absorber":
            lab = m["model"]
    return lab


@check.sub("yields", combo(sey.uniform_models), quick=840, thorough=20000, shards=3, thorough_shards=8)
def yields_case(spec):
    sey.no_sleep()
    mod = sey.build(spec["m"])
    return run_model(spec["m"], mod, spec["pts"], gen.rng(spec["seed"]))


mixed = sey.uniform_models.flatmap(lambda m: st.fixed_dictionaries(dict(m=st.just(m), n=st.integers(0, 40), seed=gen.seeds)))


@check.sub("batch-independence", mixed, quick=600, thorough=10000)
def mixed_case(spec):
    """In a batch of different impacts each has its own yield."""
    sey.no_sleep()
    m = spec["m"]
    r = gen.rng(spec["seed"])
    n = spec["n"]
    R = 400
    E0, c0 = 10 ** (3.3 * r.rand(n)), r.rand(n)
    if m["model"] == "furman_pivi":
        de, dr, dt = sey.fp_parts(m, E0, c0)
        k = de + dr < 0.99
        E0, c0 = E0[k], c0[k]
        n = len(E0)
    mod = sey.build(m)
    E, c = np.tile(E0, R), np.tile(c0, R)
    b = sey.impact_batch(r, len(E), E, c)
    tot = sey.impacts(mod, b)["nel_emit_tot_events"]
    require(tot.shape == E.shape, "shape of the emitted charge")
    if n == 0:
        return None
    Y = tot.reshape(R, n)
    exp = np.array([np.ravel(p) for p in sey.parts(m, E0, c0)]).sum(0)
    se = Y.std(0) / np.sqrt(R)
    bad = np.abs(Y.mean(0) - exp) > 7.5 * se + 1e-9 + (m["model"] in RANDOM_TOTAL) * 25.0 / R * np.maximum(Y.max(0), 1)
    require(not bad.any(), lambda: "%s: yield %g at E=%g cos=%g in a mixed batch, expected %g" % (
        m["model"], Y.mean(0)[bad][0], E0[bad][0], c0[bad][0], exp[bad][0]))
    return m["model"]


# ------------------------------------------------------------------ tables

tab = st.fixed_dictionaries(dict(model=st.just("from_file"), how=st.sampled_from(["dict", "abs", "home"]), k=gen.seeds,
                                 **dict(sey.common, **sey.table)))


@check.sub("table", tab, quick=600, thorough=10000)
def table_case(m):
    """Nodes are reproduced, values in between interpolated, however the table is given."""
    sey.no_sleep()
    d = sey.table_dict(m)
    r = gen.rng(m["k"])
    cls = pye.sec_emission_model_from_file.SEY_model_from_file
    with pye.TempDir() as p:
        arg = d
        if m["how"] != "dict":
            import scipy.io as sio
            sio.savemat("tab.mat", d)
            arg = os.path.join(p, "tab.mat")
            if m["how"] == "home":
                os.environ["HOME"] = p
                arg = "~/tab.mat"
        mod = cls(arg, m["dscale"], m["eshift"], **sey.emission_kwargs(m))
    e, t, l = d["energy_eV"], d["sey_true"], d["sey_elast"]
    i = r.randint(0, len(e), 50)
    one = np.ones(50)
    tot = sey.impacts(mod, sey.impact_batch(r, 50, e[i].copy(), one))["nel_emit_tot_events"]
    slope = max(np.abs(np.diff(t)).max(), np.abs(np.diff(l)).max()) + 1e-12
    require(np.all(np.abs(tot - (t + l)[i]) <= 1e-9 * (1 + slope * len(e))), lambda: "node value %g at E=%g, table says %g" % (
        tot[np.argmax(np.abs(tot - (t + l)[i]))], e[i][np.argmax(np.abs(tot - (t + l)[i]))], (t + l)[i][np.argmax(np.abs(tot - (t + l)[i]))]))
    E = e[-1] * r.rand(50)
    tot = sey.impacts(mod, sey.impact_batch(r, 50, E, one))["nel_emit_tot_events"]
    ref = np.interp(E, e, t + l)
    require(np.all(np.abs(tot - ref) <= 1e-9 * (1 + slope * len(e))), "value between nodes is not the linear interpolation")
    return m["how"]


uneq = st.fixed_dictionaries(dict(seed=gen.seeds, n=st.integers(4, 50)))


@check.sub("malformed-table", uneq, quick=60, thorough=500)
def uneq_case(spec):
    r = gen.rng(spec["seed"])
    d = sey.table_dict(dict(seed=spec["seed"], n=spec["n"], emax=500., smooth=True))
    d["energy_eV"] = d["energy_eV"].copy()
    d["energy_eV"][1 + r.randint(spec["n"] - 2)] += 0.3 * 500 / spec["n"]
    try:
        pye.sec_emission_model_from_file.SEY_model_from_file(d, True, True)
    except Exception:
        return "refused"
    require(False, "a table with unequal energy spacing is accepted")


big = sey.furman.map(lambda m: dict(m, fp=dict(m["fp"], p1Ehat=0.8, p1EInf=0.8, p1RInf=0.5, exclude_rediffused=False)))


@check.sub("furman-pivi-refusal", big, quick=60, thorough=500)
def fp_refuse(m):
    sey.no_sleep()
    mod = sey.build(m)
    r = gen.rng(1)
    b = sey.impact_batch(r, 5, np.full(5, 1000.), np.ones(5))
    de, dr, dt = sey.fp_parts(m, np.array([1000.]), np.array([1.]))
    if de + dr < 1:
        return None
    try:
        sey.impacts(mod, b)
    except ValueError:
        return "refused"
    require(False, "delta_e + delta_r = %g >= 1 is not refused" % (de + dr))


N_FP = 120000
strong = st.fixed_dictionaries(dict(
    e1=gen.fl(0, 1), r1=gen.fl(0, 1), t1=gen.fl(0, 1), p1RInf=gen.fl(0.1, .3), theta_e_max=st.none() | gen.fl(0.3, 1.5),
    theta_r_max=st.none() | gen.fl(0.3, 1.5), E=gen.logfl(1.0, 2000), c=st.lists(gen.fl(0.02, 1), min_size=1, max_size=2), seed=gen.seeds))


@check.sub("furman-pivi-parts", st.tuples(sey.furman, strong).map(list), quick=100, thorough=2000, shards=2)
def fp_parts(spec):
    """Large samples: the share of every kind of event, and the number of true secondaries, at one energy and few angles."""
    sey.no_sleep()
    m, k = spec
    m = dict(m, fp=dict(m["fp"], **{q: k[q] for q in ("e1", "r1", "t1", "p1RInf", "theta_e_max", "theta_r_max")}))
    r = gen.rng(k["seed"])
    lab = []
    mod = sey.build(m)
    for c in k["c"]:
        exp = [float(q[0]) for q in sey.parts(m, np.array([k["E"]]), np.array([c]))]
        if sum(float(q[0]) for q in sey.fp_parts(m, np.array([k["E"]]), np.array([c]))[:2]) > 0.97:
            continue
        n = N_FP
        out = sey.impacts(mod, sey.impact_batch(r, n, np.full(n, k["E"]), np.full(n, c)))
        ev, tot = np.asarray(out["event_type"]).astype(int), out["nel_emit_tot_events"]
        for t, p, name in ((0, exp[0], "elastic"), (2, exp[1], "rediffused")):
            f = np.mean(ev == t)
            require(abs(f - p) <= 7 * np.sqrt(max(p * (1 - p), f * (1 - f)) / n) + 30.0 / n,
                    lambda: "Furman-Pivi at E=%g eV, cos=%g: share of %s events %g, expected %g" % (k["E"], c, name, f, p))
        y = np.where((ev == 0) | (ev == 2), 0, tot)
        require(abs(y.mean() - exp[2]) <= 7 * np.sqrt(max(y.var(), exp[2]) / n) + 30.0 / n,
                lambda: "Furman-Pivi at E=%g eV, cos=%g: %g true secondaries per impact, expected %g" % (k["E"], c, y.mean(), exp[2]))
        lab.append("clipped" if (m["fp"]["theta_r_max"] and c < np.cos(m["fp"]["theta_r_max"])) or
                   (m["fp"]["theta_e_max"] and c < np.cos(m["fp"]["theta_e_max"])) else "plain")
    return lab or None


marked = st.fixed_dictionaries(dict(m=sey.furman, seed=gen.seeds, te=st.sampled_from([None, 0.5, 0.9, 1.2, 1.5]),
                                    tr=st.sampled_from([None, 0.5, 0.9, 1.2, 1.5]), eshift=st.booleans()))


@check.sub("furman-pivi-angles", marked, quick=100, thorough=2000, shards=2)
def fp_angles(s):
    """As above, with every angular factor pronounced and impacts on both sides of every limit of the angle."""
    r = gen.rng(s["seed"])
    u = lambda a, b: float(a + (b - a) * r.rand())
    m = dict(s["m"], dscale=True, eshift=s["eshift"])
    m["fp"] = dict(m["fp"], exclude_rediffused=False, use_ECLOUD_theta0_dependence=r.rand() < .2, e2=u(.7, 3), r2=u(.7, 3), t2=u(.7, 2), t3=u(.2, 1),
                   t4=u(.5, 2), p1EInf=u(0, .1), p1Ehat=u(.15, .3), eEHat=0.0, eR=u(.02, 5.), r=u(.3, 1.5), deltaTSHat=u(.3, 2.), s=u(1.2, 2.))
    return fp_parts([m, dict(e1=u(.4, 1), r1=u(.4, 1), t1=u(.3, 1), p1RInf=u(.1, .25), theta_e_max=s["te"], theta_r_max=s["tr"],
                             E=float(10 ** u(.5, 2.8)), c=[u(.02, .4), u(.4, .98)], seed=s["seed"])])


# furman_pivi refuses where elastic and rediffused parts fill the whole probability
curve = sey.uniform_models.flatmap(lambda m: st.fixed_dictionaries(dict(
    m=st.just(m), E=st.lists(gen.logfl(0.1, 3000), min_size=1, max_size=4), c=st.lists(gen.fl(0, 1), min_size=1, max_size=3),
    ions=st.booleans())))


@check.sub("extracted", curve, quick=240, thorough=4000)
def extracted(s):
    """The yield curves the program extracts from the configured model (and saves) are those of its law, kind by kind."""
    sey.no_sleep()
    m = s["m"]
    E, c = np.array(s["E"]), np.array(s["c"])
    if m["model"] == "furman_pivi":
        for cc in c:
            de, dr, dt = sey.fp_parts(m, E, np.full(len(E), cc))
            if np.any(de + dr >= 0.97):
                return None
    mod = sey.build(m)
    ch = gen.build_chamber(dict(kind="ellip", a=0.02, b=0.01))
    im = pye.impact_management_class.impact_management(ch, mod, 1e-3, 20., 10, 100.)
    n = 4000
    mass = gen.M_E * (1836. if s["ions"] else 1.)
    got = im.extract_sey_curves(n, E, c, -gen.E_CH, mass)
    names = {v: k for k, v in mod.event_types.items()}
    require(sorted(got) == sorted(names), "curves extracted for %s" % sorted(got))
    for i, cc in enumerate(c):
        for j, e in enumerate(E):
            what = "%s at E=%g eV, cos=%g" % (m["model"], e, cc)
            exp = [float(p[0]) for p in sey.parts(m, np.array([e]), np.array([cc]))]
            val = {k: float(got[k][i, j]) for k in names}
            if m["model"] == "perfect_absorber":
                require(not any(val.values()), what + ": the perfect absorber emits")
                continue
            tot = sum(exp)
            random_total = m["model"] in RANDOM_TOTAL
            for k, x in zip(("elast", "rediff", "true"), exp):
                if k not in val:
                    continue
                # every event gives at most this much
                top = max(tot, 1.0) * (10 if random_total else 1)
                sd = np.sqrt(max(x * (top - x), 0) / n)
                require(abs(val[k] - x) <= 7 * sd + 30.0 * top / n, lambda: "%s: extracted %s yield %g, expected %g" % (what, k, val[k], x))
            require(val.get("absorb", 0.0) == 0, what + ": absorbed electrons come back")
            if not random_total:
                require(abs(sum(val.values()) - tot) <= 1e-9 * tot, lambda: "%s: extracted yields add up to %g, expected %g" % (what, sum(val.values()), tot))
    return m["model"]

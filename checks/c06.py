"""C06: processing of wall impacts: who is processed, what is stored, and every statistic, over several steps."""
import numpy as np
from hypothesis import strategies as st

from vlib import pye, gen, sey, impact
from vlib.harness import Check, require, Violation

check = Check("C06", rule="history with at least one step in which some but not all particles hit the wall, or at least one impact",
              assumptions=["impact point, normal and segment are the chamber's own answer for the displacement (C03), the emission "
                           "is the model's own answer (C04, C05)",
                           "a histogram entry is shared linearly by the two nearest grid points; entries beyond the last go to the last"])

ext = gen.chambers(("ellip", "rect"))
poly = gen.chambers(("convex", "star", "template"))
surf = st.one_of(sey.ecloud, sey.uniform_models, sey.furman)
opts = dict(seed=gen.seeds, n=st.one_of(st.integers(0, 3), st.integers(8, 80), st.integers(20, 80)), steps=st.integers(1, 4),
            nbin=st.integers(2, 60), emax=gen.logfl(10, 5000), life=st.booleans(), nlife=st.integers(2, 40), lmax=gen.logfl(1e-9, 1e-6),
            dxh=gen.fl(0.01, 1.2), scrub=gen.logfl(1, 500), cosw=st.sampled_from([0.05, 0.05, 0.1, 0.3, 0.013, 1.0]), cos=st.booleans(),
            th=gen.logfl(0.05, 10), heavy=st.sampled_from([1.0, 1.0, 1836.0]), reset=st.booleans(), dt=gen.logfl(1e-11, 3e-9))
case = st.one_of(
    st.fixed_dictionaries(dict(chamb=ext, m=surf, seg=st.just(False), segE=st.just(False), **opts)),
    st.fixed_dictionaries(dict(chamb=poly, m=surf, seg=st.booleans(), segE=st.booleans(), **opts)),
    sey.nunif_strategy().flatmap(lambda m: st.fixed_dictionaries(dict(chamb=st.just(m["chamb"]), m=st.just(m), seg=st.booleans(),
                                                                       segE=st.booleans(), **opts))))


def build(spec):
    sey.no_sleep()
    c, m = spec["chamb"], spec["m"]
    if m["model"] == "nunif":
        ch, _ = sey.nunif_chamber(m)
        mod = sey.nunif_build(m, ch)
    else:
        ch = gen.build_chamber(c)
        if m["model"] == "furman_pivi":      # keep delta_e + delta_r below one at every angle (otherwise refused, C04)
            m = dict(m, fp=dict(m["fp"], e1=0.0, r1=0.0))
        mod = sey.build(m)
    rec = impact.Recorder(mod)
    im = pye.impact_management_class.impact_management(
        ch, rec, spec["dxh"] * ch.x_aper, spec["scrub"], spec["nbin"], spec["emax"], Nbin_lifetime_hist=spec["nlife"],
        lifetime_hist_max=spec["lmax"], flag_lifetime_hist=spec["life"], flag_seg=spec["seg"],
        flag_En_hist_seg=spec["segE"] and spec["seg"], cos_angle_width=spec["cosw"], flag_cos_angle_hist=spec["cos"])
    return c, ch, rec, im


RESETS = [("nel_impact_hist_tot", "reset_impact_hist_tot"), ("nel_impact_hist_scrub", "reset_impact_hist_scrub"),
          ("energ_eV_impact_hist", "reset_energ_eV_impact_hist"), ("En_hist_line", "reset_En_hist_line"),
          ("nel_hist_impact_seg", "reset_hist_impact_seg"), ("nel_hist_emit_seg", "reset_hist_emit_seg"),
          ("energ_eV_impact_seg", "reset_energ_impact_seg"), ("cos_angle_hist", "reset_cos_angle_hist"),
          ("lifetime_hist_line", "reset_lifetime_hist_line"), ("seg_En_hist_lines", "reset_seg_En_hist_lines")]


@check.sub("history", case, quick=3600, thorough=40000, shards=4, thorough_shards=8)
def history(spec):
    c, ch, rec, im = build(spec)
    r = gen.rng(spec["seed"])
    mass = gen.M_E * spec["heavy"]
    mp = impact.system(ch, 1e6, fsplit=spec["th"], mass=mass, lifetime=spec["life"])
    S = max(ch.x_aper, ch.y_aper)
    vt = S / spec["dt"]
    tt = 1e-6 + spec["dt"]
    if spec["n"]:
        lv = np.log10(vt)
        impact.fill(mp, c, r, spec["n"], 1e-6, logv=(lv - 1.5, lv + 0.5))
    # grids
    g = im.xg_hist
    D = spec["dxh"] * ch.x_aper
    require(gen.close(g, (np.arange(len(g)) - (len(g) - 1) // 2) * D, 1e-9, 1e-9 * D) and g[-1] >= ch.x_aper * (1 - 1e-9), "position grid does not cover the chamber")
    require(gen.close(im.En_g_hist, np.linspace(0, spec["emax"], spec["nbin"]), 1e-12, 1e-12), "energy grid")
    ref = dict(nel_impact_hist_tot=np.zeros(len(g)), nel_impact_hist_scrub=np.zeros(len(g)), energ_eV_impact_hist=np.zeros(len(g)),
               En_hist_line=np.zeros(spec["nbin"]))
    mag = {k: 0.0 for k, _ in RESETS}
    if spec["cos"]:
        ref["cos_angle_hist"] = np.zeros(len(im.cos_angle_hist))
        require((len(im.cos_angle_hist) - 1) * spec["cosw"] <= 1 + 1e-9 and len(im.cos_angle_hist) * spec["cosw"] > 1 - 1e-9,
                "angle histogram does not cover [0, 1]")
    if spec["life"]:
        ref["lifetime_hist_line"] = np.zeros(spec["nlife"])
        require(gen.close(im.lifetime_g_hist, np.linspace(0, spec["lmax"], spec["nlife"]), 1e-12, 1e-20), "lifetime grid")
    seg = spec["seg"]
    if seg:
        N = ch.N_vert
        for k in ("nel_hist_impact_seg", "nel_hist_emit_seg", "energ_eV_impact_seg"):
            ref[k] = np.zeros(N)
        if spec["segE"]:
            ref["seg_En_hist_lines"] = np.zeros((N, spec["nbin"]))
    some = False
    for step in range(spec["steps"]):
        n = int(mp.N_mp)
        if n > 20000:
            break
        old = impact.drift(mp, spec["dt"])
        # positions within rounding of the wall are not judged
        if n:
            _, marg = gen.is_inside(c, mp.x_mp[:n], mp.y_mp[:n])
            if np.any(marg < 1e-12 * S):
                return None
            ins, marg0 = gen.is_inside(c, old.x_mp, old.y_mp)
            if np.any(~ins & (marg0 > 1e-11 * S)):
                raise Violation("internal: start outside")
        before = impact.rows(mp)
        o0 = np.array([old.x_mp, old.y_mp, old.z_mp])
        q0 = before[6].sum()
        hit = ~gen.is_inside(c, before[0], before[1])[0] if n else np.zeros(0, bool)
        rec.calls.clear()
        ret = im.backtrack_and_second_emiss(old, mp, tt)
        mp2 = ret if ret is not None else mp
        require(mp2 is mp, "another cloud object is returned")
        after = impact.rows(mp)
        nh = int(hit.sum())
        args = {k: np.concatenate([np.atleast_1d(d[k]) for d, _ in rec.calls]) if rec.calls else np.zeros(0)
                for k in impact.Recorder.ARGS if k not in ("mass", "nel_mp_th", "flag_seg", "i_found")}
        outs = {k: np.concatenate([np.atleast_1d(o[k]) for _, o in rec.calls]) if rec.calls else np.zeros(0)
                for k in sey.OUT if k not in ("event_info", "i_seg_replace", "i_seg_new_MPs")}
        require(len(args["nel_impact"]) == nh, lambda: "%d of %d particles left the chamber, %d were processed as impacts" % (nh, n, len(args["nel_impact"])))
        W = before[6][hit]
        V = before[3:6][:, hit]
        if nh:
            require(all(d["mass"] == mass and d["nel_mp_th"] == mp.nel_mp_split and bool(d["flag_seg"]) == bool(seg) for d, _ in rec.calls),
                    "mass, splitting size or segment flag passed to the emission model")
            with pye.TempDir():
                X = ch.impact_point_and_normal(o0[0][hit], o0[1][hit], o0[2][hit], before[0][hit], before[1][hit], before[2][hit])
            E = 0.5 * mass / gen.E_CH * (V ** 2).sum(0)
            vn = V[0] * X[3] + V[1] * X[4]
            cos = np.abs(vn) / np.sqrt((V ** 2).sum(0))
            want = dict(nel_impact=W, x_impact=X[0], y_impact=X[1], z_impact=X[2], vx_impact=V[0], vy_impact=V[1], vz_impact=V[2],
                        Norm_x=X[3], Norm_y=X[4], v_impact_n=vn, E_impact_eV=E, costheta_impact=cos)
            a, b = np.lexsort((args["vx_impact"], args["nel_impact"])), np.lexsort((V[0], W))
            for k, v in want.items():
                require(gen.close(args[k][a], v[b], 1e-9, 1e-9 * np.max(np.abs(v))), lambda: "impacts handed to the emission model: %s is %r, expected %r" % (k, args[k][a][:4], v[b][:4]))
            for d, _ in rec.calls:
                if X[5] is not None:
                    require(d["i_found"] is not None, "no segment handed to the emission model")
            if X[5] is not None:
                sg = np.concatenate([d["i_found"] for d, _ in rec.calls])
                require(np.array_equal(sg[a], np.asarray(X[5])[b]), "segments handed to the emission model")
        # stored cloud
        keep = before[:, ~hit]
        t_hit = tt if spec["life"] else -1.0
        mk = lambda s, k: np.array([outs[q + s] for q in ("x", "y", "z", "vx", "vy", "vz", "nel")] + [np.full(k, t_hit)])
        repl = mk("_replace", len(outs["nel_replace"]))
        new = mk("_new_MPs", len(outs["nel_new_MPs"]))
        exp = np.concatenate([keep, repl, new], axis=1)
        require(after.shape == exp.shape, "%d macroparticles stored, expected %d" % (after.shape[1], exp.shape[1]))
        require(np.array_equal(impact.sort_rows(after), impact.sort_rows(exp)), "stored macroparticles differ from untouched + kept + new ones")
        k = after[6] > 0
        require(not np.any(ch.is_outside(after[0][k].copy(), after[1][k].copy())) if k.any() else True, "a stored electron is outside the chamber")
        # totals
        Ne, Ni = outs["nel_emit_tot_events"].sum(), W.sum()
        Er = 0.5 * mass / gen.E_CH * (repl[3:6] ** 2).sum(0)
        En = 0.5 * mass / gen.E_CH * (new[3:6] ** 2).sum(0)
        Ei = 0.5 * mass / gen.E_CH * (V ** 2).sum(0)
        Ee = (Er * repl[6]).sum() + (En * new[6]).sum()
        for name, got, w in (("impacting charge", im.Nel_impact_last_step, Ni), ("emitted charge", im.Nel_emit_last_step, Ne),
                             ("impacting energy", im.En_imp_last_step_eV, (Ei * W).sum()), ("emitted energy", im.En_emit_last_step_eV, Ee)):
            require(gen.close(got, w, 1e-9), "reported %s %r, actual %r" % (name, got, w))
        require(abs((after[6].sum() - q0) - (im.Nel_emit_last_step - im.Nel_impact_last_step)) <= 1e-9 * (q0 + Ne), "cloud charge does not change by emitted minus impacting charge")
        # histograms
        def add(name, v):
            ref[name] = ref[name] + v
            mag[name] += np.abs(v).sum()
        if nh:
            P = lambda x, w: impact.cic(x, w, g[0], D, len(g))
            add("nel_impact_hist_tot", P(X[0], W))
            add("nel_impact_hist_scrub", P(X[0], W * (Ei > spec["scrub"])))
            add("energ_eV_impact_hist", P(X[0], W * Ei))
            mag["energ_eV_impact_hist"] += Ee
            add("energ_eV_impact_hist", -P(repl[0], repl[6] * Er) - P(new[0], new[6] * En))
            dE = spec["emax"] / (spec["nbin"] - 1)
            add("En_hist_line", impact.cic(Ei, W, 0, dE, spec["nbin"]))
            if spec["cos"]:
                add("cos_angle_hist", impact.cic(cos, W, 0, spec["cosw"], len(im.cos_angle_hist)))
            if spec["life"]:
                tl = before[7][hit]
                m = tl > 0
                add("lifetime_hist_line", impact.cic(tt - tl[m], W[m], 0, spec["lmax"] / (spec["nlife"] - 1), spec["nlife"]))
            if seg:
                s = np.asarray(X[5])
                B = lambda i, w: np.bincount(np.asarray(i, int), weights=w, minlength=N)
                ir = np.concatenate([o["i_seg_replace"] for _, o in rec.calls]).astype(int)
                nw = np.concatenate([np.atleast_1d(o["i_seg_new_MPs"]) for _, o in rec.calls]).astype(int)
                add("nel_hist_impact_seg", B(s, W))
                add("energ_eV_impact_seg", B(s, W * Ei))
                mag["energ_eV_impact_seg"] += Ee
                add("energ_eV_impact_seg", -B(ir, repl[6] * Er) - B(nw, new[6] * En))
                add("nel_hist_emit_seg", B(ir, repl[6]) + B(nw, new[6]))
                if spec["segE"]:
                    h = np.zeros((N, spec["nbin"]))
                    for i in range(N):
                        h[i] = impact.cic(Ei[s == i], W[s == i], 0, dE, spec["nbin"])
                    add("seg_En_hist_lines", h)
        for name in ref:
            got = np.array(getattr(im, name), float)
            require(got.shape == ref[name].shape, "size of %s" % name)
            bad = np.abs(got - ref[name]) > 1e-9 * mag[name] + 1e-12
            require(not bad.any(), lambda: "%s: %r, expected %r (worst entry %d)" % (
                name, got.ravel()[np.argmax(np.abs(got - ref[name]))], ref[name].ravel()[np.argmax(np.abs(got - ref[name]))],
                int(np.argmax(np.abs(got - ref[name])))))
        if spec["reset"] and r.rand() < .6:
            which = [q for q in RESETS if q[0] in ref and r.rand() < .5]
            for name, fn in which:
                getattr(im, fn)()
                ref[name] = ref[name] * 0.0
                mag[name] *= 1e-3      # leftovers of rounding only
            for name in ref:
                require(np.all(np.array(getattr(im, name))[...] == 0) if name in [q[0] for q in which] else
                        np.all(np.abs(np.array(getattr(im, name)) - ref[name]) <= 1e-9 * mag[name] + 1e-12), "resetting %s: %s" % ([q[0] for q in which], name))
            for name, fn in which:
                mag[name] = 0.0
        some = some or nh > 0
        tt += spec["dt"]
        # dead macroparticles are removed between steps by the simulation
        mp.clean_small_MPs()
        # (a step of an empty cloud reports that nothing happened)
        if int(mp.N_mp) == 0 and n == 0:
            break
    return spec["m"]["model"] + ("/seg" if seg else "") if some else None


@check.sub("segments-need-polygon", gen.chambers(("ellip",)), quick=5, thorough=20, thorough_shards=1)
def refuse(c):
    ch = gen.build_chamber(c)
    try:
        pye.impact_management_class.impact_management(ch, None, 1e-3, 20, 10, 100, flag_seg=True)
    except ValueError:
        return "refused"
    raise Violation("per-segment statistics accepted for a chamber without segments")

"""C16: the output file against an outside observer of the run."""
import glob
import os

import numpy as np
import scipy.io as sio
from hypothesis import strategies as st

from vlib import buildup as bu, gen, impact, pye, sey
from vlib.harness import Check, require

fl, logfl = gen.fl, gen.logfl
QE, C = gen.E_CH, gen.C_L

check = Check("C16", rule="a case is non-trivial when the file was written, macroparticles existed and at least one hit the wall, or a movie, a state file or the charge density of a cloud was judged",
              assumptions=["the state at a recorded instant is the one after motion, impacts, primaries and fields and before cleaning and regeneration",
                           "a histogram entry is shared linearly by the two nearest grid points; what lies beyond the last goes to the last",
                           "N_mp_impact_pass counts from the beginning of the run and, the chamber being shared, over all clouds and with the wall look-ups of photoemission",
                           "the displaced entries of one time base are compared at 1e-9 of the sums involved"])

opts = st.fixed_dictionaries(dict(
    detailed=st.booleans(), cos=st.booleans(), cosw=st.sampled_from([0.05, 0.1, 0.07, 0.3]), det=st.booleans(), enseg=st.booleans(),
    rho=st.booleans(), sc=st.booleans(), mps=st.lists(fl(0, 1.1), max_size=3), mpsfile=st.booleans(), De=st.booleans(), custom=st.booleans(),
    folder=st.booleans(), sec=st.booleans(), decsec=st.integers(1, 3), En=logfl(0.05, 3.0), lt=logfl(0.05, 3.0), sub=st.booleans(),
    rc=fl(0.05, 1.2)))


def configure(s):
    """Configuration of a build-up spec with the outputs of s['o']."""
    cfg = bu.config(s)
    o, sim = s["o"], cfg["sim"]
    c = s["ch"]
    X, Y = bu.half_size(c)
    b = cfg["beam"]["b_spac"]
    sim.update(flag_detailed_MP_info=int(o["detailed"]), flag_cos_angle_hist=o["cos"], cos_angle_width=o["cosw"],
               flag_movie=int(o["rho"]), flag_sc_movie=int(o["sc"]), Dt_En_hist=o["En"] * b, r_center=o["rc"] * min(X, Y))
    if s["lthist"]:
        sim["Dt_lifetime_hist"] = o["lt"] * b
    sim["flag_hist_impact_seg"] = int(s["seg"])
    if s["seg"] and c["kind"] not in ("ellip",):
        sim["flag_En_hist_seg"] = o["enseg"]
    if o["det"]:
        sim.update(x_min_hist_det=-0.31 * X, x_max_hist_det=0.52 * X, y_min_hist_det=-0.6 * Y, y_max_hist_det=0.33 * Y, Dx_hist_det=X / 11.3)
    if o["De"]:
        sim["Dh_electric_energy"] = X / 4.7
    if o["mps"]:
        T = bu.time_axis(cfg)[-1]
        sim["save_mp_state_time_file"] = [float(f * T) for f in sorted(o["mps"])]
        if o["mpsfile"]:
            cfg["mats"]["when.mat"] = dict(t_obs=np.array(sim["save_mp_state_time_file"]))
            sim["save_mp_state_time_file"] = "when.mat"
    if o["folder"]:
        sim["filen_main_outp"] = "res/ults/Pyecltest.mat"
    if o["sec"]:
        sim["secondary_beams_file_list"] = ["two.beam"]
        sim["dec_fac_secbeam_prof"] = o["decsec"]
        cfg["sec_beams"]["two.beam"] = dict(cfg["beam"], t_offs=cfg["beam"]["t_offs"] * 0.7, fact_beam=0.3 * cfg["beam"]["fact_beam"])
    return cfg


def deposit(spc, R, charge):
    """Charge density on the nodes, shared linearly by the four nearest."""
    D = spc.Dh
    rho = np.zeros((len(spc.xg), len(spc.yg)))
    fx, fy = (R[0] - spc.xg[0]) / D, (R[1] - spc.yg[0]) / D
    i, j = np.floor(fx).astype(int), np.floor(fy).astype(int)
    u, v = fx - i, fy - j
    for a, b, w in ((0, 0, (1 - u) * (1 - v)), (1, 0, u * (1 - v)), (0, 1, (1 - u) * v), (1, 1, u * v)):
        np.add.at(rho, (i + a, j + b), w * R[6])
    return charge * rho / D ** 2


class Observer:
    """Keeps everything that happens in a run, step by step, for every cloud."""

    def __init__(self, cfg, custom=False, **kw):
        self.cfg = cfg
        self.clean = cfg["sim"].get("N_mp_regen", 0) < 10 ** 8 or cfg["sim"].get("N_mp_soft_regen") is not None \
            or cfg["sim"]["N_mp_async_regen"] < bu.NASYNC or cfg["sim"].get("N_mp_regen_low", 0) > 0 or cfg["sim"]["fact_clean"] > 0
        self.at = {}
        self.step_i = 0
        self.dens = False
        if custom:
            kw.update(step_by_step_custom_observables={"my_steps": self.look_step, "my_lam": lambda sim: sim.beamtim.lam_t_curr},
                      pass_by_pass_custom_observables={"my_pass": self.look_pass,
                                                       "my_vec": lambda sim: np.array([sim.beamtim.pass_numb, 7.0])},
                      save_once_custom_observables={"my_once": lambda sim: np.arange(4.0) * len(sim.cloud_list)})
        self.sim = bu.make(cfg, **kw)
        self.rec = []
        for cl in self.sim.cloud_list:
            r = impact.Recorder(cl.impact_man.sey_mod)
            cl.impact_man.sey_mod = r
            self.rec.append(r)
        self.names = [cl.pyeclsaver.filen_main_outp for cl in self.sim.cloud_list]
        self.steps = []

    def rows(self):
        return [impact.rows(cl.MP_e) for cl in self.sim.cloud_list]

    def look_step(self, sim):
        self.at.setdefault(self.step_i, ([impact.rows(cl.MP_e) for cl in sim.cloud_list], [cl.MP_e.nel_mp_ref for cl in sim.cloud_list]))
        return 1000.0 + self.step_i

    def look_pass(self, sim):
        self.look_step(sim)
        return -5.0 - self.step_i

    def run(self, limit=None):
        sim = self.sim
        sp = bu.Stepper(sim)
        self.N_mp_imp = []
        while not sp.done() and (limit is None or self.step_i < limit):
            for r in self.rec:
                r.calls.clear()
            if not sp.step():
                break
            i = self.step_i
            if i not in self.at:
                # between recorded instants (or without custom output): judged only if nothing was removed afterwards
                self.at[i] = ((self.rows(), [cl.MP_e.nel_mp_ref for cl in sim.cloud_list]) if not self.clean else None)
            spc = sim.spacech_ele
            U = None
            if self.cfg["sim"].get("Dh_electric_energy"):
                D = self.cfg["sim"]["Dh_electric_energy"]
                ax = sim.chamb.x_aper * 1.01, sim.chamb.y_aper * 1.01
                g = np.meshgrid(np.arange(-ax[0], ax[0], D), np.arange(-ax[1], ax[1], D))
                ex, ey = spc.PyPICobj.gather(g[0].ravel(), g[1].ravel())
                U = 0.5 * np.sum(ex ** 2 + ey ** 2) * D ** 2 * 8.8541878128e-12 / QE
            if spc.last_recomputation_check and sim.beamtim.tt_curr > sim.t_sc_ON and self.at[i] is not None:
                for k, cl in enumerate(sim.cloud_list):
                    want = deposit(spc, self.at[i][0][k], cl.MP_e.charge)
                    near(cl.rho, want, np.max(np.abs(want)) + np.max(np.abs(np.array(spc.rho))), "charge density of cloud %d at step %d" % (k, i))
                    self.dens = self.dens or want.any()
            self.steps.append(dict(
                t=float(sim.beamtim.tt_curr), lam=float(sim.beamtim.lam_t_curr), new=bool(sim.beamtim.flag_new_bunch_pass),
                imp=[[(d, q) for d, q in r.calls] for r in self.rec], U=U, Usc=spc.U_sc_eV_stp, sc=bool(spc.last_recomputation_check),
                rho=np.array(spc.rho) if np.ndim(spc.rho) else None, ef=(np.array(spc.efx), np.array(spc.efy)) if np.ndim(spc.efx) else None,
                rhoc=[None if cl.rho is None else np.array(cl.rho) for cl in sim.cloud_list], nimp=sim.chamb.N_mp_impact,
                tot=[(cl.impact_man.Nel_impact_last_step, cl.impact_man.Nel_emit_last_step, cl.impact_man.En_imp_last_step_eV,
                      cl.impact_man.En_emit_last_step_eV) for cl in sim.cloud_list]))
            self.step_i += 1
            if any(cl.MP_e.N_mp > 15000 for cl in sim.cloud_list):
                break
        self.t = np.array([q["t"] for q in self.steps])
        self.ipass = [i for i, q in enumerate(self.steps) if q["new"]]


def spacing(t, all_t, D, what, first=True):
    """t: each instant is the first time step at which at least D has passed since the one before."""
    i = [int(np.argmin(np.abs(all_t - x))) for x in t]
    require(len(t) == 0 or np.all(np.abs(all_t[i] - t) <= 1e-9 * np.abs(t) + 1e-20), what + ": not an instant of the simulation")
    if first:
        require(len(i) > 0 and i[0] == 0, lambda: what + ": does not begin with the first step")
    for a, b in zip(i[:-1], i[1:]):
        require(b > a, what + ": instants repeated")
        require(all_t[b] - all_t[a] >= D * (1 - 2e-3), lambda: "%s: %.5g s between instants, expected at least %.5g" % (what, all_t[b] - all_t[a], D))
        require(all_t[b - 1] - all_t[a] < D * (1 + 2e-3) or b == a + 1, lambda: "%s: %.5g s between instants, already %.5g a step before, asked %.5g" %
                (what, all_t[b] - all_t[a], all_t[b - 1] - all_t[a], D))
    return i


def near(got, want, mag, what, rtol=1e-9):
    got, want = np.array(got, float), np.array(want, float)
    require(got.shape == want.shape, lambda: "%s: shape %s, expected %s" % (what, got.shape, want.shape))
    bad = ~(np.abs(got - want) <= rtol * np.broadcast_to(np.asarray(mag, float), want.shape) + 1e-12)
    if bad.any():
        k = tuple(np.argwhere(bad)[0])
        require(False, "%s: entry %s is %r, expected %r" % (what, k, got[k], want[k]))


def judge(ob, s):
    """Compares every variable of the files with the observations. Returns labels."""
    cfg, sim, o = ob.cfg, ob.sim, s["o"]
    P = cfg["sim"]
    every = P.get("save_mat_every", 1)
    passes = ob.ipass
    m = len(passes) - len(passes) % every
    labels = []
    wall = False
    for k, name in enumerate(ob.names):
        if m == 0:
            require(not os.path.exists(name), "file written before save_mat_every passages")
            continue
        require(os.path.exists(name), lambda: "no file %s" % name)
        d = sio.loadmat(name, chars_as_strings=True)
        d = {q: v for q, v in d.items() if not q.startswith("__")}
        cl = sim.cloud_list[k]
        im = cl.impact_man
        mass = cl.MP_e.mass
        last = passes[m - 1]
        v = lambda q: np.atleast_1d(np.squeeze(d[q]))
        one = lambda q, n: np.reshape(d[q], (n, -1)) if np.size(d[q]) else np.zeros((n, 0))
        # ---- step by step
        t = d["t"].ravel()
        idx = spacing(t, ob.t, P.get("dec_fact_out", 1) * P["Dt"], "t")
        n = len(t)
        require(idx[-1] <= last < idx[-1] + max(P.get("dec_fact_out", 1), 1) + 1, lambda: "last sample is step %d, the file was written at %d" % (idx[-1], last))
        series = ["lam_t_array", "Nel_timep", "Nel_imp_time", "Nel_emit_time", "En_imp_eV_time", "En_emit_eV_time", "En_kin_eV_time", "cen_density"]
        if o["detailed"]:
            series += ["N_mp_time", "nel_mp_ref_time"]
        if o["De"]:
            series += ["En_electric_eV_time"]
        if ob.custom:
            series += ["my_steps", "my_lam"]
        for q in series:
            require(q in d and d[q].size == n, lambda: "%s: %s values for %d instants" % (q, d[q].size if q in d else "no", n))
        near(v("lam_t_array"), [ob.steps[i]["lam"] for i in idx], np.abs(v("lam_t_array")), "lam_t_array")
        if ob.custom:
            near(v("my_steps"), [1000.0 + i for i in idx], 1e3, "custom observable of a step")
            near(v("my_lam"), [ob.steps[i]["lam"] for i in idx], np.abs(v("my_lam")), "custom observable of a step (line density)")
        lo = -1
        probes = P.get("el_density_probes", [])
        if probes:
            pr = np.reshape(d["el_dens_at_probes"], (len(probes), -1))
            require(pr.shape[1] == n, lambda: "el_dens_at_probes: %d values for %d instants" % (pr.shape[1], n))
            for q, nm in (("x", "x"), ("y", "y"), ("r_obs", "r")):
                near(v(nm + "_el_dens_probes"), [p[q] for p in probes], 1.0, nm + "_el_dens_probes")
        for j, i in enumerate(idx):
            tot = np.zeros(4)
            mag = 0.0
            for q in range(lo + 1, i + 1):
                tot += np.array(ob.steps[q]["tot"][k], float)
                for dd, oo in ob.steps[q]["imp"][k]:
                    mag += np.sum(dd["nel_impact"])
                    wall = True
            # what really hit the wall, from the emission model's point of view
            near(v("Nel_imp_time")[j], mag, mag, "Nel_imp_time, sample %d" % j)
            for q, w in zip(("Nel_imp_time", "Nel_emit_time", "En_imp_eV_time", "En_emit_eV_time"), tot):
                near(v(q)[j], w, abs(w), "%s, sample %d" % (q, j))
            lo = i
            if o["De"]:
                near(v("En_electric_eV_time")[j], ob.steps[i]["U"], 1e-6 * ob.steps[i]["U"], "En_electric_eV_time", 1.0)
            if ob.at[i] is None:
                continue
            R = ob.at[i][0][k]
            w = R[6]
            v2 = (R[3:6] ** 2).sum(0)
            near(v("Nel_timep")[j], w.sum(), w.sum(), "Nel_timep, sample %d" % j)
            E = np.sum(0.5 * mass / QE * v2 * w)
            near(v("En_kin_eV_time")[j], E, E, "En_kin_eV_time, sample %d" % j)
            rr = np.hypot(R[0], R[1])
            rc = P["r_center"]
            edge = np.sum(w[np.abs(rr - rc) < 1e-9 * rc])
            cen = np.sum(w[rr < rc])
            near(v("cen_density")[j] * np.pi * rc ** 2, cen, cen + edge * 1e9, "cen_density, sample %d" % j)
            for p, row in zip(probes, pr if probes else []):
                q = np.sum(w[np.hypot(R[0] - p["x"], R[1] - p["y"]) < p["r_obs"]])
                near(row[j] * np.pi * p["r_obs"] ** 2, q, w.sum(), "density at a probe, sample %d" % j)
            if o["detailed"]:
                near(v("N_mp_time")[j], R.shape[1], 1.0, "N_mp_time, sample %d" % j)
                near(v("nel_mp_ref_time")[j], ob.at[i][1][k], ob.at[i][1][k], "nel_mp_ref_time, sample %d" % j)
        # ---- passage by passage
        th = d["t_hist"].ravel()
        near(th, ob.t[passes[:m]], 1e-6, "t_hist")
        g = d["xg_hist"].ravel()
        X = sim.chamb.x_aper
        near(np.diff(g), np.full(len(g) - 1, P["Dx_hist"]), X, "xg_hist")
        D = P["Dx_hist"]
        eg = d["En_g_hist"].ravel()
        near(eg, np.linspace(0, P["En_hist_max"], P["Nbin_En_hist"]), P["En_hist_max"], "En_g_hist")
        H = {q: one(q, m) for q in ("nel_hist", "nel_impact_hist_tot", "nel_impact_hist_scrub", "energ_eV_impact_hist")}
        for q, a in H.items():
            require(a.shape == (m, len(g)), lambda: "%s: shape %s, expected %s" % (q, a.shape, (m, len(g))))
        for q in ("N_mp_impact_pass", "N_mp_corrected_pass", "N_mp_pass", "N_mp_ref_pass") + (("my_pass",) if ob.custom else ()):
            require(d[q].size == m, lambda: "%s: %d values for %d passages" % (q, d[q].size, m))
        if ob.custom:
            near(v("my_pass"), [-5.0 - i for i in passes[:m]], 1.0, "custom observable of a passage")
            mv = one("my_vec", m)
            require(mv.shape == (m, 2) and np.all(mv[:, 1] == 7.0) and np.all(np.diff(mv[:, 0]) > 0), "custom vector observable of a passage")
            near(v("my_once"), np.arange(4.0) * len(sim.cloud_list), 1.0, "custom observable saved once")
        seg = bool(s["seg"]) and s["ch"]["kind"] != "ellip"
        if seg:
            N = sim.chamb.N_vert
            S = {q: one(q, m) for q in ("nel_hist_impact_seg", "nel_hist_emit_seg", "energ_eV_impact_seg")}
            for q, a in S.items():
                require(a.shape == (m, N), lambda: "%s: shape %s, expected %s" % (q, a.shape, (m, N)))
        if o["det"]:
            gd = d["xg_hist_det"].ravel()
            hd = one("nel_hist_det", m)
            require(hd.shape == (m, len(gd)), lambda: "nel_hist_det: shape %s, expected %s" % (hd.shape, (m, len(gd))))
            near(np.diff(gd), np.full(len(gd) - 1, P["Dx_hist_det"]), X, "xg_hist_det")
            require(gd[0] <= P["x_min_hist_det"] and gd[-1] >= P["x_max_hist_det"] - 1e-9, "xg_hist_det does not cover the region")
        lo = -1
        for j, i in enumerate(passes[:m]):
            cal = [c for q in range(lo + 1, i + 1) for c in ob.steps[q]["imp"][k]]
            cat = lambda q: np.concatenate([np.atleast_1d(c[0][q]) for c in cal]) if cal else np.zeros(0)
            x, w, E = cat("x_impact"), cat("nel_impact"), cat("E_impact_eV")
            near(H["nel_impact_hist_tot"][j], impact.cic(x, w, g[0], D, len(g)), w.sum(), "nel_impact_hist_tot, passage %d" % j)
            near(H["nel_impact_hist_scrub"][j], impact.cic(x, w * (E > im.scrub_en_th), g[0], D, len(g)), w.sum(), "nel_impact_hist_scrub, passage %d" % j)
            we, em = energies(cal, mass)
            Eh = impact.cic(x, w * E, g[0], D, len(g)) - impact.cic(we[0], we[2], g[0], D, len(g))
            near(H["energ_eV_impact_hist"][j], Eh, (w * E).sum() + em, "energ_eV_impact_hist, passage %d" % j)
            if seg and cal:
                B = lambda q, y: np.bincount(np.asarray(q, int), weights=y, minlength=N)
                iS = cat("i_found")
                near(S["nel_hist_impact_seg"][j], B(iS, w), w.sum(), "nel_hist_impact_seg, passage %d" % j)
                near(S["nel_hist_emit_seg"][j], B(we[3], we[1]), we[1].sum(), "nel_hist_emit_seg, passage %d" % j)
                near(S["energ_eV_impact_seg"][j], B(iS, w * E) - B(we[3], we[2]), (w * E).sum() + em, "energ_eV_impact_seg, passage %d" % j)
            elif seg:
                for q in S:
                    near(S[q][j], np.zeros(N), 1.0, "%s, passage %d" % (q, j))
            near(v("N_mp_impact_pass")[j], ob.steps[i]["nimp"] if len(ob.names) > 1 or "photo" in s["prim"] else
                 sum(len(c[0]["nel_impact"]) for q in range(i + 1) for c in ob.steps[q]["imp"][k]), 1.0, "N_mp_impact_pass, passage %d" % j)
            lo = i
            if ob.at[i] is None:
                continue
            R = ob.at[i][0][k]
            near(H["nel_hist"][j], impact.cic(R[0], R[6], g[0], D, len(g)), R[6].sum(), "nel_hist, passage %d" % j)
            near(v("N_mp_pass")[j], R.shape[1], 1.0, "N_mp_pass")
            near(v("N_mp_ref_pass")[j], ob.at[i][1][k], ob.at[i][1][k], "N_mp_ref_pass")
            if o["det"]:
                u = (R[0] > P["x_min_hist_det"]) & (R[0] < P["x_max_hist_det"]) & (R[1] > P["y_min_hist_det"]) & (R[1] < P["y_max_hist_det"])
                near(hd[j], impact.cic(R[0][u], R[6][u], gd[0], P["Dx_hist_det"], len(gd)), R[6].sum(), "nel_hist_det, passage %d" % j)
        # ---- energy, angle and lifetime spectra
        te = d["t_En_hist"].ravel()
        ie = spacing(te, ob.t[:last + 1], P["Dt_En_hist"], "t_En_hist")
        ne = len(ie)
        require(ob.t[last] - te[-1] < P["Dt_En_hist"] * (1 + 2e-3), "t_En_hist stops early")
        A, K = one("En_hist", ne), one("all_Ekin_hist", ne)
        dE = P["En_hist_max"] / (P["Nbin_En_hist"] - 1)
        require(A.shape == (ne, len(eg)) and K.shape == (ne, len(eg)), "En_hist or all_Ekin_hist: shape %s, %s for %d instants" % (A.shape, K.shape, ne))
        cosw = None
        if o["cos"]:
            cosw = one("cos_angle_hist", ne)
            xc = d["xg_hist_cos_angle"].ravel()
            require(cosw.shape == (ne, len(xc)), lambda: "cos_angle_hist: shape %s, expected %s" % (cosw.shape, (ne, len(xc))))
            near(xc, np.arange(len(xc)) * o["cosw"], 1.0, "xg_hist_cos_angle")
        ES = None
        if seg and o["enseg"]:
            ES = np.reshape(d["En_hist_seg"], (N, ne, len(eg)))
        lo = -1
        for j, i in enumerate(ie):
            cal = [c for q in range(lo + 1, i + 1) for c in ob.steps[q]["imp"][k]]
            cat = lambda q: np.concatenate([np.atleast_1d(c[0][q]) for c in cal]) if cal else np.zeros(0)
            w, E, co = cat("nel_impact"), cat("E_impact_eV"), cat("costheta_impact")
            near(A[j], impact.cic(E, w, 0, dE, len(eg)), w.sum(), "En_hist, instant %d" % j)
            if cosw is not None:
                near(cosw[j], impact.cic(co, w, 0, o["cosw"], len(xc)), w.sum(), "cos_angle_hist, instant %d" % j)
            if ES is not None:
                iS = cat("i_found")
                for q in range(N):
                    near(ES[q, j], impact.cic(E[iS == q], w[iS == q], 0, dE, len(eg)), w.sum(), "En_hist_seg, segment %d, instant %d" % (q, j))
            if ob.at[i] is not None:
                R = ob.at[i][0][k]
                near(K[j], impact.cic(0.5 * mass / QE * (R[3:6] ** 2).sum(0), R[6], 0, dE, len(eg)), R[6].sum(), "all_Ekin_hist, instant %d" % j)
            lo = i
        if s["lthist"]:
            tl = d["t_lifetime_hist"].ravel()
            il = spacing(tl, ob.t[:last + 1], P["Dt_lifetime_hist"], "t_lifetime_hist")
            L = one("lifetime_hist", len(il))
            gl = d["lifetime_g_hist"].ravel()
            near(gl, np.linspace(0, P["lifetime_hist_max"], P["Nbin_lifetime_hist"]), P["lifetime_hist_max"], "lifetime_g_hist", 1e-9)
            require(L.shape == (len(il), len(gl)), "lifetime_hist: shape")
            lo = -1
            for j, i in enumerate(il):
                tot = sum(ob.life(q, k) for q in range(lo + 1, i + 1))
                near(L[j], tot, np.sum(tot), "lifetime_hist, instant %d" % j, 1e-8)
                lo = i
        # ---- space charge instants
        ts = d["t_sc_video"].ravel()
        ws = [q["t"] for q in ob.steps[:last + 1] if q["sc"]]
        near(ts, ws, 1e-6, "t_sc_video")
        require(d["U_sc_eV"].size == len(ws), "U_sc_eV: %d values for %d instants" % (d["U_sc_eV"].size, len(ws)))
        if P.get("Dt_sc"):
            a = [q for q in ts]
            spacing(np.array(a), ob.t, P["Dt_sc"], "t_sc_video", first=False)
        else:
            require(len(ts) == last + 1, "without Dt_sc: fields computed at %d of %d steps" % (len(ts), last + 1))
        # ---- fixed quantities
        near(v("b_spac")[0], cfg["beam"]["b_spac"], 1.0, "b_spac", 1e-15)
        near(v("dec_fact_out")[0], P.get("dec_fact_out", 1), 1.0, "dec_fact_out")
        near(v("chamber_area")[0], sim.chamb.area, 1.0, "chamber_area", 1e-12)
        if o["sec"]:
            tsb = d["t_sec_beams"].ravel()
            full = bu.time_axis(cfg)[::o["decsec"]]
            near(tsb, full, 1.0, "t_sec_beams", 1e-12)
            b2 = sim.sec_beams_list[0]
            near(np.reshape(d["sec_beam_profiles"], (1, -1))[0], np.array(b2.lam_t_array)[::o["decsec"]], np.max(b2.lam_t_array), "sec_beam_profiles")
        # ---- macroparticle states
        times = P.get("save_mp_state_time_file", [])
        if isinstance(times, str):
            times = cfg["mats"][times]["t_obs"].tolist()
        folder = os.path.dirname(name) or "."
        pat = "MP_state_%s_%%d" % cl.name if len(ob.names) > 1 else "MP_state_%d"
        i0 = 0
        for j, tt in enumerate(times):
            f = os.path.join(folder, pat % j)
            if any(q is None for q in ob.at.values()):
                break
            if not os.path.exists(f):
                f += ".mat"  # scipy decides
            # first step at or after the instant with macroparticles, one file per step
            cand = [i for i in range(i0, len(ob.steps)) if ob.t[i] >= tt and ob.at[i][0][k].shape[1] > 0]
            if not cand:
                require(not os.path.exists(f), "state %d saved before its time" % j)
                break
            i = cand[0]
            i0 = i + 1
            require(os.path.exists(f), lambda: "state %d (t = %.4g s) of %s not saved" % (j, tt, cl.name))
            q = sio.loadmat(f)
            near(q["tt"].ravel()[0], ob.t[i], 1e-6, "instant of state %d" % j)
            R = ob.at[i][0][k]
            for row, c in zip(R, impact.COLS):
                near(q[c].ravel(), row, np.abs(row), "state %d, %s" % (j, c), 1e-12)
            labels.append("state")
        # ---- movies
        if o["rho"] and k == len(ob.names) - 1:
            labels += movie(os.path.join(folder, "rho_video"), "rho_pass", "t_video", ["rho_video"], [q["t"] for q in ob.steps if q["sc"]],
                            [[q["rho"]] for q in ob.steps if q["sc"]], passes, ob.t, "density movie")
        if o["rho"] and len(ob.names) > 1:
            labels += movie(os.path.join(folder, "rho_video_" + cl.name), "rho_pass", "t_video", ["rho_video"], [q["t"] for q in ob.steps if q["sc"]],
                            [[q["rhoc"][k]] for q in ob.steps if q["sc"]], passes, ob.t, "density movie of " + cl.name)
        if o["sc"]:
            labels += movie(os.path.join(folder, "efield_video"), "efield_pass", "t_efield_video", ["efx_video", "efy_video"],
                            [q["t"] for q in ob.steps if q["sc"]], [list(q["ef"]) for q in ob.steps if q["sc"]], passes, ob.t, "field movie")
    if wall:
        labels.append("impacts")
    return labels


def energies(cal, mass):
    """x, charge, energy (eV times charge) and segment of everything that was emitted; total energy."""
    xs, ws, es, gs = [], [], [], []
    for d, q in cal:
        for suf in ("replace", "new_MPs"):
            n = q["nel_" + suf]
            vv = q["vx_" + suf] ** 2 + q["vy_" + suf] ** 2 + q["vz_" + suf] ** 2
            xs.append(np.atleast_1d(q["x_" + suf])); ws.append(np.atleast_1d(n)); es.append(np.atleast_1d(0.5 * mass / QE * vv * n))
            g = q["i_seg_" + suf]
            gs.append(np.atleast_1d(g) if g is not None and np.size(g) == np.size(n) else np.zeros(np.size(n)))
    if not xs:
        z = np.zeros(0)
        return (z, z, z, z), 0.0
    r = tuple(np.concatenate([np.asarray(y, float) for y in a]) for a in (xs, ws, es, gs))
    return r, r[2].sum()


def movie(folder, stem, tname, names, ts, vals, passes, all_t, what):
    """The files, in order of passages, hold every evaluation up to the last passage once."""
    fs = sorted(glob.glob(os.path.join(folder, stem + "*.mat")), key=lambda f: int(os.path.basename(f)[len(stem):-4]))
    require(len(fs) == len(passes), lambda: "%s: %d files for %d passages" % (what, len(fs), len(passes)))
    k = 0
    for f, ip in zip(fs, passes):
        d = sio.loadmat(f)
        t = d[tname].ravel()
        w = [x for x in ts[k:] if x <= all_t[ip]]
        near(t, w, 1e-6, "%s, instants in %s" % (what, os.path.basename(f)))
        for q, nm in enumerate(names):
            for j in range(len(t)):
                a, b = d[nm][j], vals[k + j][q]
                near(a, b, np.max(np.abs(b)) + 1e-300, "%s, %s at %.4g s" % (what, nm, t[j]))
        k += len(t)
    return ["movie"] if k else []


def life(self, i, k):
    """Lifetime histogram entries of step i, cloud k, from the positions of the impacts in the state before."""
    P = self.cfg["sim"]
    n, D = P["Nbin_lifetime_hist"], P["lifetime_hist_max"] / (P["Nbin_lifetime_hist"] - 1)
    h = np.zeros(n)
    for tl, w in self.lives[i][k]:
        u = tl > 0
        h += impact.cic(self.t[i] - tl[u], w[u], 0, D, n)
    return h


Observer.life = life


def track_lives(ob):
    """Notes, for every step and cloud, the last impact times of the macroparticles that hit the wall."""
    ob.lives = []
    for k, cl in enumerate(ob.sim.cloud_list):
        im = cl.impact_man
        real = im.backtrack_and_second_emiss

        def wrapped(old, MP_e, tt, real=real, k=k):
            n = int(MP_e.N_mp)
            out = []
            if n and MP_e.flag_lifetime_hist:
                hit = np.array(ob.sim.chamb.is_outside(MP_e.x_mp[:n].copy(), MP_e.y_mp[:n].copy()), bool)
                out.append((MP_e.t_last_impact[:n][hit].copy(), MP_e.nel_mp[:n][hit].copy()))
            while len(ob.lives) <= ob.step_i:
                ob.lives.append([[] for _ in ob.sim.cloud_list])
            ob.lives[ob.step_i][k] += out
            return real(old, MP_e, tt)
        im.backtrack_and_second_emiss = wrapped


record = bu.with_(o=opts)


@check.sub("record", record, quick=480, thorough=12000, shards=6, thorough_shards=8)
def rec(s):
    s = dict(s)
    sey.no_sleep()
    if not s["o"]["custom"]:
        s["fclean"], s["regen"] = 0.0, None
    cfg = configure(s)
    with pye.TempDir():
        if s["o"]["folder"]:
            os.makedirs("res/ults")
        ob = Observer(cfg, custom=s["o"]["custom"])
        ob.custom = s["o"]["custom"]
        track_lives(ob)
        ob.run()
        lab = judge(ob, s) + (["density"] if ob.dens else [])
    return sorted(set(lab)) or None


# ------------------------------------------------------------------ outputs do not disturb each other

FULL = dict(detailed=True, cos=True, cosw=0.05, det=True, enseg=True, rho=True, sc=True, mps=[0.2, 0.5], mpsfile=False, De=True, custom=False, folder=False,
            sec=False, decsec=1, En=0.6, lt=0.7, sub=False, rc=0.4)


def simple(cfg, names, seed, **kw):
    np.random.seed(seed)
    with pye.TempDir():
        sim = bu.make(cfg, **kw)
        np.random.seed(seed)
        sim.run()
        out = [bu.load_out(c.pyeclsaver.filen_main_outp) for c in sim.cloud_list]
        n = [impact.rows(c.MP_e) for c in sim.cloud_list]
    return out, n


@check.sub("options", bu.with_(o=opts, dec2=st.integers(2, 4)), quick=40, thorough=1000, shards=4, thorough_shards=8)
def options(s):
    """Switching outputs on or off, decimation and selected variables change nothing else."""
    sey.no_sleep()
    s = dict(s, dec=1, o=dict(s["o"], sec=False, En=0.6, lt=0.7, rc=0.4, folder=False))
    off = dict(s["o"], detailed=False, cos=False, det=False, enseg=False, rho=False, sc=False, mps=[], De=False)
    full, n0 = simple(configure(dict(s, o=dict(FULL, cosw=s["o"]["cosw"]))), None, s["seed"] % 2 ** 31)
    variants = [("other options", dict(s["o"])), ("no options", off)]
    for what, o in variants:
        out, n1 = simple(configure(dict(s, o=o)), None, s["seed"] % 2 ** 31)
        for k, (a, b) in enumerate(zip(full, out)):
            require(np.array_equal(n0[k], n1[k]), "%s: the cloud itself has changed" % what)
            for q in a:
                if q in b and a[q].shape == b[q].shape:
                    require(np.array_equal(a[q], b[q]), lambda: "%s: %s has changed" % (what, q))
                elif q in b:
                    require(q in ("nel_hist_det", "xg_hist_det", "cos_angle_hist", "xg_hist_cos_angle", "En_hist_seg"),
                            lambda: "%s: %s has shape %s instead of %s" % (what, q, b[q].shape, a[q].shape))
    # decimation
    cfg = configure(dict(s, o=FULL, dec=s["dec2"]))
    out, n1 = simple(cfg, None, s["seed"] % 2 ** 31)
    full1, _ = simple(configure(dict(s, o=FULL)), None, s["seed"] % 2 ** 31) if s["o"]["cosw"] != FULL["cosw"] else (full, 0)
    dec = s["dec2"]
    for a, b in zip(full1, out):
        n = a["t"].size
        sel = np.arange(0, n, dec)
        for q in a:
            if q in ("Nel_imp_time", "Nel_emit_time", "En_imp_eV_time", "En_emit_eV_time"):
                c = np.concatenate([[0], np.cumsum(a[q].ravel())])
                w = np.diff(c[np.concatenate([[0], sel + 1])])
                near(b[q].ravel(), w, c[-1], "%s with decimation" % q)
            elif q == "dec_fact_out":
                pass
            elif q in ("t", "lam_t_array", "Nel_timep", "En_kin_eV_time", "cen_density", "N_mp_time", "nel_mp_ref_time", "En_electric_eV_time",
                       "el_dens_at_probes"):
                require(b[q].shape[-1] == len(sel) and np.array_equal(a[q][..., sel], b[q]), lambda: "%s with decimation %d is not every %dth value" % (q, dec, dec))
            else:
                require(np.array_equal(a[q], b[q]), lambda: "%s has changed with decimation" % q)
    # selected variables
    r = gen.rng(s["seed"])
    keys = sorted(full1[0])
    some = [str(q) for q in r.permutation(keys)[:1 + r.randint(6)]]
    cfg = configure(dict(s, o=FULL))
    cfg["sim"]["save_only"] = some
    out, n1 = simple(cfg, None, s["seed"] % 2 ** 31)
    require(sorted(out[0]) == sorted(some), lambda: "selected %s, file has %s" % (some, sorted(out[0])))
    for q in some:
        require(np.array_equal(out[0][q], full1[0][q]), lambda: "%s differs when only some variables are saved" % q)
    return ["options", "dec%d" % dec] if full[0]["Nel_imp_time"].sum() > 0 else None


# ------------------------------------------------------------------ log, progress and stop files

@check.sub("log", bu.with_(log=st.booleans(), prog=st.booleans(), log2=st.booleans(), prog2=st.booleans(), stop=st.one_of(st.none(), fl(0.0, 1.0)),
                           name=st.sampled_from(["stop", "halt_now"]), pattern=st.lists(st.sampled_from([1.0, 0.5, 0.0]), min_size=1, max_size=4)),
           quick=60, thorough=1500, shards=3, thorough_shards=6)
def log(s):
    """One line per passage in the log of each cloud, the fraction done in its progress file, and a stop file that ends the
    run at the next passage, with the output up to there on the disk."""
    sey.no_sleep()
    s = dict(s, fclean=0.0, regen=None)
    cfg = bu.config(s)
    files = [("logfile.txt", "progress.txt"), ("logfile_ions.txt", "progress_ions.txt"), ("logfile_more.txt", "progress_more.txt")]
    cfg["sim"].update(logfile_path="./logfile.txt" if s["log"] else None, progress_path="./progress.txt" if s["prog"] else None, stopfile=s["name"])
    keep = [(s["log"], s["prog"]), (s["log2"], s["prog2"]), (s["prog2"], s["log2"])]
    for name, (a, b), (la, pa) in zip(("ions.cloud", "more.cloud"), keep[1:], files[1:]):
        if name in cfg["clouds"]:
            cfg["clouds"][name].update(logfile_path="./" + la if a else None, progress_path="./" + pa if b else None)
    with pye.TempDir():
        sim = bu.make(cfg)
        sp = bu.Stepper(sim)
        n = sp.n_total
        at = None if s["stop"] is None else int(s["stop"] * n)
        passes, ended, i = [], False, 0
        while not sp.done():
            if at is not None and i == at:
                open(s["name"], "w").close()
            try:
                if not sp.step():
                    break
            except ValueError as e:
                if "top" not in str(e):
                    raise
                ended = True
            bt = sim.beamtim
            new = bool(bt.flag_new_bunch_pass)
            if new:
                passes.append((int(bt.pass_numb), int(bt.N_pass_tot)))
            require(ended == (new and at is not None and i >= at), lambda: "step %d of %d, new passage %s, stop file there from step %s: run %s" % (
                i, n, new, at, "ended" if ended else "went on"))
            i += 1
            if ended:
                break
        for k, cl in enumerate(sim.cloud_list):
            # the first cloud is the one that notices
            mine = passes if k == 0 or not ended else passes[:-1]
            out = bu.load_out(cl.pyeclsaver.filen_main_outp) if mine and os.path.exists(cl.pyeclsaver.filen_main_outp) else None
            if mine and int(cfg["sim"].get("save_mat_every") or 1) == 1:
                require(out is not None, "cloud %d: no output after %d passages" % (k, len(mine)))
                require(out["t_hist"].size == len(mine), lambda: "cloud %d: output holds %d passages of %d" % (k, out["t_hist"].size, len(mine)))
            for name, on in zip(files[k], keep[k]):
                require(on or not os.path.exists(name), "%s was written although not asked for" % name)
            if keep[k][0]:
                L = [l for l in open(files[k][0]).read().splitlines() if " pass. " in l]
                require(len(L) == len(mine), lambda: "cloud %d: %d lines in the log for %d passages" % (k, len(L), len(mine)))
                for j, (l, (a, b)) in enumerate(zip(L, mine)):
                    w = l.split(" pass. ")[1]
                    require(w.split(",")[0].strip() == "%d/%d" % (a, b), lambda: "log says %r at passage %d of %d" % (w, a, b))
                    require("cloud=%s:" % cl.name in w, lambda: "log of cloud %s says %r" % (cl.name, w))
                    if out is not None:
                        N = int(w.split("N_mp=")[1])
                        require(N == int(np.ravel(out["N_mp_pass"])[j]), lambda: "log says %r, the output %d macroparticles" % (w, np.ravel(out["N_mp_pass"])[j]))
                        q = float(w.split("Nel_tot=")[1].split()[0])
                        t = int(np.argmin(np.abs(out["t"].ravel() - out["t_hist"].ravel()[j])))
                        if s["dec"] == 1:
                            near(q, out["Nel_timep"].ravel()[t], np.max(out["Nel_timep"]) + 1e-300, "charge in the log", 1e-6)
            if keep[k][1] and mine:
                v = float(open(files[k][1]).read())
                near(v, mine[-1][0] / float(mine[-1][1]), 1.0, "progress", 1e-5)
    if passes:
        return ["passes%d" % min(len(passes), 4), "stopped" if ended else "finished", "clouds%d" % len(sim.cloud_list)]


# ------------------------------------------------------------------ long runs

@check.sub("long", st.fixed_dictionaries(dict(seed=gen.seeds, steps=st.sampled_from([990, 1003, 2100]), dec=st.sampled_from([1, 1, 2]), probes=st.integers(0, 2),
                                              detailed=st.booleans(), De=st.booleans())), quick=6, thorough=60)
def long(s):
    """More samples than any initial storage."""
    sey.no_sleep()
    r = gen.rng(s["seed"])
    Dt = 2.5e-11
    n = 20
    b = bu.base_beam(b_spac=s["steps"] * Dt * s["dec"] / 4.0, filling_pattern_file=[1.0, 0.0, 1.0, 0.0], t_offs=6e-10, fact_beam=3e10)
    sim = bu.base_sim(Dt=Dt, Dt_sc=50 * Dt, dec_fact_out=s["dec"], flag_detailed_MP_info=int(s["detailed"]), Dt_En_hist=300 * Dt)
    if s["De"]:
        sim["Dh_electric_energy"] = 5e-3
    sim["el_density_probes"] = [dict(x=2e-3 * (k + 1), y=-1e-3, r_obs=6e-3) for k in range(s["probes"])]
    mach = dict(chamb_type="ellip", x_aper=0.02, y_aper=0.015, track_method="Boris", B0x=0.0, B0y=0.0, B0z=0.0, N_sub_steps=1, init_unif_flag=1,
                Nel_init_unif=1e4 * n, E_init_unif=20.0, x_max_init_unif=0.02, x_min_init_unif=-0.02, y_max_init_unif=0.015, y_min_init_unif=-0.015)
    cfg = dict(sim=sim, machine=mach, secem=bu.base_secem(del_max=1.2), beam=b, mats={})
    with pye.TempDir():
        sm = bu.make(cfg, step_by_step_custom_observables={"my": lambda q: q.cloud_list[0].MP_e.N_mp})
        cl = sm.cloud_list[0]
        cl.impact_man.sey_mod = impact.Recorder(cl.impact_man.sey_mod)
        rows, last_pass, acc = [], -1, np.zeros(2)
        sp = bu.Stepper(sm)
        while sp.step():
            acc[0] += sum(np.sum(d["nel_impact"]) for d, _ in cl.impact_man.sey_mod.calls)
            acc[1] += sum(np.sum(q["nel_emit_tot_events"]) for _, q in cl.impact_man.sey_mod.calls)
            cl.impact_man.sey_mod.calls.clear()
            if sp.i % s["dec"] == 0:
                R = impact.rows(cl.MP_e)
                rows.append([sm.beamtim.tt_curr, R[6].sum(), acc[0], acc[1], sm.beamtim.lam_t_curr, R.shape[1]] +
                            [R[6][np.hypot(R[0] - p["x"], R[1] - p["y"]) < p["r_obs"]].sum() / (np.pi * p["r_obs"] ** 2) for p in sim["el_density_probes"]])
                acc[:] = 0
            if sm.beamtim.flag_new_bunch_pass:
                last_pass = len(rows)
            if cl.MP_e.N_mp > 15000:
                return None
        d = bu.load_out("Pyecltest.mat")
    a = np.array(rows[:last_pass])
    want = dict(t=a[:, 0], Nel_timep=a[:, 1], Nel_imp_time=a[:, 2], Nel_emit_time=a[:, 3], lam_t_array=a[:, 4], my=a[:, 5])
    clean = 1e-2 * 1e4
    for q, w in want.items():
        require(d[q].size == len(w), lambda: "%s: %d samples, expected %d" % (q, d[q].size, len(w)))
        if q == "my":
            # removed macroparticles at passages are seen before the removal
            continue
        near(d[q].ravel(), w, np.max(np.abs(w)), q, 1e-5 if q == "Nel_timep" else 1e-9)
    for q in ["En_imp_eV_time", "En_emit_eV_time", "En_kin_eV_time", "cen_density", "my"] + (["N_mp_time", "nel_mp_ref_time"] if s["detailed"] else []) \
            + (["En_electric_eV_time"] if s["De"] else []):
        require(d[q].size == len(a), lambda: "%s: %d samples, expected %d" % (q, d[q].size, len(a)))
    if s["probes"]:
        near(np.reshape(d["el_dens_at_probes"], (s["probes"], -1)), a[:, 6:].T, np.max(a[:, 1]) / (np.pi * 6e-3 ** 2), "el_dens_at_probes", 1e-5)
    if s["detailed"]:
        require(np.array_equal(d["N_mp_time"].ravel(), d["my"].ravel()), "N_mp_time differs from the custom observable")
    return "long"


DETERMINISTIC = st.one_of(sey.ecloud, sey.flat_le, sey.from_file)      # the charge emitted per impact is not random


@check.sub("extracted", bu.with_(
    steps=st.integers(8, 12), pattern=st.just([1.0]), extra=st.integers(0, 3), nmp=st.integers(20, 60), prim=st.just(["unif"]), ions=st.sampled_from([0, 1]),
    track=st.just("Boris"), sec=DETERMINISTIC, sec2=DETERMINISTIC, curves=st.sampled_from([True, True, True, False]), ene=st.sampled_from([True, True, False]), Eimp=logfl(30, 1000), nb=st.integers(20, 200), f=fl(1.15, 2.5)),
    quick=10, thorough=200, shards=4, thorough_shards=8)
def extracted(s):
    """Yield curves and energy histograms in the file of each cloud are those of its own surface model."""
    sey.no_sleep()
    cfg = bu.config(s)
    sim = cfg["sim"]
    models = [s["sec"]]
    sim["extract_sey"] = s["curves"]
    if s["ene"]:
        sim.update(extract_ene_dist=True, ene_dist_test_E_impact_eV=s["Eimp"], Nbin_extract_ene=s["nb"], factor_ene_dist_max=s["f"])
    if s["ions"]:
        own = {}
        ic = cfg["clouds"]["ions.cloud"]
        m2 = bu.secem_of(s["sec2"], own)
        if "sey.mat" in own:
            cfg["mats"]["sey2.mat"] = own["sey.mat"]
            m2["sey_file"] = "sey2.mat"
        for p in ("Emax", "del_max", "R0", "E0", "s_param"):
            m2.setdefault(p, None)
        ic.update(m2, init_unif_flag=0)
        models.append(s["sec2"])
    IM = pye.impact_management_class.impact_management
    old = {}
    if hasattr(IM, "extract_sey_curves"):
        # the same with fewer repetitions
        orig = old["extract_sey_curves"] = IM.extract_sey_curves

        def fewer(self, *a, **k):
            if "n_rep" in k:
                k["n_rep"] = 40
            else:
                a = (40,) + a[1:]
            return orig(self, *a, **k)
        IM.extract_sey_curves = fewer
    try:
        with pye.TempDir():
            np.random.seed(s["seed"])
            S = bu.make(cfg)
            require(all(c.MP_e.N_mp == 0 or i == 0 for i, c in enumerate(S.cloud_list)), "extraction left macroparticles behind")
            require(getattr(S.chamb, "N_mp_impact", 0) == 0, "extraction counts as impacts")
            S.run()
            outs = [bu.load_out(c.pyeclsaver.filen_main_outp) for c in S.cloud_list]
    finally:
        for k, v in old.items():
            setattr(IM, k, v)
    for i, (o, m) in enumerate(zip(outs, models)):
        what = "cloud %d (%s)" % (i, m["model"])
        mats = {k: np.asarray(o[k]) for k in o if k.startswith("sey_test_del_")}
        require(bool(mats) == s["curves"], what + ": curves saved though not wanted, or the reverse")
        if mats:
            E, c = np.ravel(o["sey_test_E_impact_eV"]), np.ravel(o["sey_test_cos_theta"])
            require(E.size > 100 and c.size > 3 and np.all(np.diff(E) > 0) and np.all(np.diff(c) > 0) and c[-1] == 1., what + ": axes of the yield curves")
            require(all(v.shape == (c.size, E.size) for v in mats.values()), what + ": shape of the yield curves")
            tot = sum(mats.values())
            want = np.array([sum(sey.parts(m, E, np.full(E.size, x))) for x in c])
            bad = np.abs(tot - want) > 1e-6 * np.abs(want) + 1e-9
            require(not np.any(bad), lambda: "%s: saved yield at E=%g eV, cos=%g is %g, its model says %g" % (
                what, E[np.argwhere(bad)[0][1]], c[np.argwhere(bad)[0][0]], tot[tuple(np.argwhere(bad)[0])], want[tuple(np.argwhere(bad)[0])]))
            el = np.array([sey.parts(m, E, np.full(E.size, x))[0] for x in c])
            require(np.all(mats["sey_test_del_elast_mat"][el == 0] == 0), what + ": reflected electrons where the model has none")
        hist = {k: np.asarray(o[k]) for k in o if k.startswith("emit_ene_test_")}
        require(bool(hist) == s["ene"], what + ": energy histograms saved though not wanted, or the reverse")
        if hist:
            g, c = np.ravel(o["emit_ene_g_hist"]), np.ravel(o["ene_dist_test_cos_theta"])
            require(np.ravel(o["ene_dist_test_E_impact_eV"])[0] == s["Eimp"], what + ": impact energy of the histograms")
            require(g.size == s["nb"] and g[0] == 0 and gen.close(g[-1], s["Eimp"] * s["f"], 1e-9), what + ": axis of the energy histograms")
            require(all(v.shape == (g.size, c.size) for v in hist.values()), what + ": shape of the energy histograms")
            D = g[1] - g[0]
            el = hist["emit_ene_test_elast_mat"]
            require(np.all(el[np.abs(g - s["Eimp"]) > 1.01 * D] == 0), what + ": reflected electrons at other energies than that of the impact")
            E1 = np.array([s["Eimp"]])
            pe = [sey.parts(m, E1, np.array([x])) for x in c]
            fr = np.array([float(p[0][0] / max(p[0][0] + p[2][0], 1e-300)) for p in pe])
            # impacts are reflected in the proportion of the two parts; of those that are not, all or some of the electrons are counted
            n_el = el.sum(0)
            require(np.all((n_el > 0) <= (fr > 0)), what + ": reflected electrons where the model has none")
            if not isinstance(m["E_th"], str) and m["E_th"] < g[-1] - D:
                tr = hist["emit_ene_test_true_mat"]
                require(np.all(tr[g > m["E_th"] + 1.01 * D] == 0), what + ": secondaries above the configured energy ceiling")
    if s["curves"] or s["ene"]:
        return ["clouds%d" % len(outs)] + ["curves"] * s["curves"] + ["energies"] * s["ene"]

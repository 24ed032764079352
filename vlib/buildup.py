"""Small build-up simulations: writes the input files of a configuration and drives the real BuildupSimulation."""
import copy
import io
import os
import sys

import numpy as np
import scipy.io as sio
from hypothesis import strategies as st

from . import gen, pye, sey
from .harness import HarnessError

E, ME, MP, C = gen.E_CH, gen.M_E, 1.67262192369e-27, gen.C_L
fl, logfl = gen.fl, gen.logfl

# keeps a cloud that grows without bound within the allocated storage
NASYNC = 20000
SIM_FILE = "simulation_parameters.input"


def lit(v):
    """A Python literal (with np.array) that evaluates to v."""
    if isinstance(v, np.ndarray):
        return "np.array(%r)" % (v.tolist(),)
    if isinstance(v, np.generic):
        return repr(v.item())
    if isinstance(v, list):
        return "[" + ", ".join(lit(x) for x in v) + "]"
    if isinstance(v, tuple):
        return "(" + "".join(lit(x) + ", " for x in v) + ")"
    if isinstance(v, dict):
        return "{" + ", ".join("%r: %s" % (k, lit(x)) for k, x in v.items()) + "}"
    return repr(v)


def dump_vars(d):
    return "import numpy as np\n" + "".join("%s = %s\n" % (k, lit(v)) for k, v in d.items())


def write(cfg, folder="."):
    """cfg: sim, machine, secem, beam (dicts), sec_beams, clouds ({file: dict}), mats ({file: dict}), raw ({file: text})."""
    def put(name, text):
        p = os.path.join(folder, name)
        os.makedirs(os.path.dirname(os.path.abspath(p)), exist_ok=True)
        with open(p, "w") as f:
            f.write(text)
    put(SIM_FILE, dump_vars(cfg["sim"]))
    put(cfg["sim"]["machine_param_file"], dump_vars(cfg["machine"]))
    put(cfg["sim"]["secondary_emission_parameters_file"], dump_vars(cfg["secem"]))
    put(cfg["sim"]["beam_parameters_file"], dump_vars(cfg["beam"]))
    for name, d in list(cfg.get("sec_beams", {}).items()) + list(cfg.get("clouds", {}).items()):
        put(name, dump_vars(d))
    for name, d in cfg.get("mats", {}).items():
        p = os.path.join(folder, name)
        sio.savemat(p, {k: np.asarray(v) if not isinstance(v, (dict, str)) else v for k, v in d.items()}, oned_as="row")
    for name, t in cfg.get("raw", {}).items():
        put(name, t)


def make(cfg=None, folder="./", **kw):
    if cfg is not None:
        write(cfg, folder)
    return pye.buildup_simulation.BuildupSimulation(pyecl_input_folder=folder, **kw)


class Stepper:
    """Advances a simulation one time step at a time through its public run()."""

    def __init__(self, sim):
        self.sim = sim
        bt = sim.beamtim
        self.t = np.array(bt.t, float)
        self.i = -1 if bt.tt_curr is None else int(np.argmin(np.abs(self.t - bt.tt_curr)))

    @property
    def n_total(self):
        return len(self.t) - 1

    def done(self):
        return self.sim.beamtim.end_simulation()

    def step(self):
        if self.done():
            return False
        self.i += 1
        self.sim.run(t_end_sim=float(self.t[self.i]))
        return True


def base_sim(**over):
    d = dict(machine_param_file="machine_parameters.input",
             secondary_emission_parameters_file="secondary_emission_parameters.input",
             beam_parameters_file="beam.beam", logfile_path="./logfile.txt", progress_path="./progress.txt",
             stopfile="stop", Dt=25e-12, t_end=0.0, lam_th=1e2, N_mp_max=100000, N_mp_async_regen=NASYNC, N_mp_after_async_regen=NASYNC // 3,
             N_mp_regen=10 ** 9, N_mp_regen_low=0,
             t_ON_regen_low=1e3, N_mp_after_regen=1000, fact_split=1.5, fact_clean=1e-6, nel_mp_ref_0=1e4,
             Nx_regen=11, Ny_regen=11, Nvx_regen=11, Nvy_regen=11, Nvz_regen=11, regen_hist_cut=1e-4,
             Dt_sc=None, Dh_sc=4e-3, t_sc_ON=0.0, Dx_hist=2e-3, r_center=4e-3, Dt_En_hist=2e-10, Nbin_En_hist=20,
             En_hist_max=500.0, extract_sey=False, filen_main_outp="Pyecltest.mat")
    d.update(over)
    return d


def base_secem(**over):
    d = dict(Emax=300.0, del_max=1.6, R0=0.7, E_th=35.0, sigmafit=1.0828, mufit=1.6636, switch_model=0,
             switch_no_increase_energy=0, thresh_low_energy=-1, scrub_en_th=20.0,
             secondary_angle_distribution="cosine_3D")
    d.update(over)
    return d


def base_beam(**over):
    d = dict(energy_eV=4.5e11, sigmax=1e-3, sigmay=1e-3, beam_field_file="computeFD", Dh_beam_field=2e-3,
             b_spac=5e-10, fact_beam=1e11, coast_dens=0.0, flag_bunched_beam=1, sigmaz=0.015, t_offs=2e-10,
             filling_pattern_file=[1.0])
    d.update(over)
    return d


def chamber_machine(c, mats):
    """Machine parameters of a chamber spec; puts the profile file into mats."""
    if c["kind"] in ("ellip", "rect"):
        return dict(chamb_type=c["kind"], x_aper=c["a"], y_aper=c["b"])
    mats["chamber.mat"] = gen.chamber_dict(c)
    return dict(chamb_type="polyg_cython" if c.get("cy", True) else "polyg", filename_chm="chamber.mat",
                flag_assume_convex=(c["kind"] == "convex"))


def half_size(c):
    if c["kind"] in ("ellip", "rect"):
        return c["a"], c["b"]
    Vx, Vy = gen.chamber_vertices(c)
    return float(np.max(np.abs(Vx))), float(np.max(np.abs(Vy)))


# ------------------------------------------------------------------ generated configurations

# chambers as used in simulations: not too elongated, to keep grids small
aper = fl(0.008, 0.03)
sim_chambers = gen.chambers(kinds=("ellip", "rect", "convex"), aper=aper)
sim_chambers_all = gen.chambers(kinds=("ellip", "rect", "convex", "star"), aper=aper)

sec_models = st.one_of(sey.ecloud, sey.ecloud, sey.acc_low, sey.cos_le, sey.flat_le, sey.from_file, sey.furman,
                       sey.absorber)


def secem_of(m, mats, scrub=20.0):
    """Secondary-emission parameters of a generated model (see vlib.sey)."""
    k = m["model"]
    d = base_secem(switch_model=k, scrub_en_th=scrub)
    if k == "perfect_absorber":
        return d
    d.update(E_th=m["E_th"], sigmafit=m["sigmafit"], mufit=m["mufit"], switch_no_increase_energy=m["switch"],
             thresh_low_energy=m["thresh"], secondary_angle_distribution=m["angle"])
    for a, b in (("Emax", "Emax"), ("del_max", "del_max"), ("R0", "R0"), ("E0", "E0"), ("s", "s_param"),
                 ("dscale", "flag_costheta_delta_scale"), ("eshift", "flag_costheta_Emax_shift")):
        if a in m:
            d[b] = m[a]
    if k == "from_file":
        mats["sey.mat"] = sey.table_dict(m)
        d["sey_file"] = "sey.mat"
    elif k == "furman_pivi":
        d["furman_pivi_surface"] = sey.fp_dict(m["fp"])
    return d


spec = st.fixed_dictionaries(dict(
    ch=sim_chambers_all,
    seed=gen.seeds,
    steps=st.integers(8, 22),                 # per bunch spacing
    frac=st.sampled_from([0.0, 0.0, 0.37]),   # bunch spacing not a multiple of Dt
    pattern=st.lists(st.sampled_from([1.0, 1.0, 0.5, 0.0]), min_size=1, max_size=4),
    extra=st.integers(0, 9),                  # t_end in steps
    Dt=st.sampled_from([1e-11, 2.5e-11, 5e-11]),
    ppb=logfl(1e10, 5e11),
    sz=fl(1.5, 4.0),                          # bunch length in steps
    toff=fl(0.2, 0.8),
    coast=st.sampled_from([0.0, 0.0, 1e8]),
    track=st.sampled_from(["Boris", "Boris", "BorisMultipole", "StrongBdip"]),
    nsub=st.integers(1, 3),
    B=st.sampled_from([0.0, 1e-3, 0.05, 0.5]),
    em=st.just(False),
    sec=sec_models,
    ang=st.sampled_from(["cosine_2D", "cosine_3D"]),
    dtsc=st.sampled_from([None, None, 1.0, 2.5, 5.0]),
    tscon=st.sampled_from([0.0, 0.0, 6.0]),   # steps
    prim=st.lists(st.sampled_from(["gas", "photo", "unif", "edens"]), min_size=1, max_size=3, unique=True),
    nmp=st.integers(20, 200),                 # order of magnitude of the macroparticle number
    dens=logfl(1e11, 1e14),
    E0=logfl(0.5, 500.0),
    fsplit=fl(1.2, 2.5),
    regen=st.sampled_from([None, None, "full", "soft", "async", "low"]),
    fclean=st.sampled_from([1e-6, 1e-2, 0.2]),
    lthist=st.booleans(),
    seg=st.booleans(),
    dec=st.sampled_from([1, 1, 2, 3]),
    every=st.sampled_from([1, 1, 2]),
    probes=st.integers(0, 2),
    ions=st.sampled_from([0, 0, 1, 2]),       # additional clouds: ions, then other charged particles
))


def with_(**over):
    """The same strategy with some entries replaced."""
    return st.tuples(spec, st.fixed_dictionaries(over)).map(lambda t: dict(t[0], **t[1]))


def config(s):
    """Turns a generated spec into a configuration (deterministic)."""
    c = dict(s["ch"])
    mats = {}
    X, Y = half_size(c)
    Dt = s["Dt"]
    b_spac = (s["steps"] + s["frac"]) * Dt
    r = gen.rng(s["seed"])
    Dh = 2 * max(X, Y) / 14.0
    # number of passes, so that save_mat_every divides it
    pattern = list(s["pattern"])
    mach = dict(track_method=s["track"])
    mach.update(chamber_machine(c, mats))
    if s["track"] == "StrongBdip":
        mach["B"] = s["B"]
    elif s["track"] == "Boris":
        mach.update(B0x=s["B"] * 0.3, B0y=s["B"], B0z=-0.5 * s["B"], N_sub_steps=s["nsub"])
    elif s["track"] == "BorisMultipole":
        mach.update(B_multip=[s["B"], 3.0 * s["B"]], N_sub_steps=s["nsub"])
        if s["seed"] % 2:
            mach["B_skew"] = [0.1 * s["B"], -2.0 * s["B"]]
    area = X * Y * 2.5
    n_el = s["dens"] * area
    ref = n_el / s["nmp"]
    sim = base_sim(Dt=Dt, t_end=s["extra"] * Dt, nel_mp_ref_0=ref, fact_split=s["fsplit"], fact_clean=s["fclean"],
                   Dt_sc=None if s["dtsc"] is None else s["dtsc"] * Dt, Dh_sc=Dh, t_sc_ON=s["tscon"] * Dt,
                   Dx_hist=X / 6.3, r_center=0.4 * min(X, Y), Dt_En_hist=0.6 * b_spac, dec_fact_out=s["dec"],
                   flag_hist_impact_seg=int(s["seg"]))
    if s["lthist"]:
        sim.update(flag_lifetime_hist=True, Nbin_lifetime_hist=12, lifetime_hist_max=30 * Dt, Dt_lifetime_hist=0.7 * b_spac)
    n = s["nmp"]
    if s["regen"] == "full":
        sim.update(N_mp_regen=int(1.2 * n) + 5, N_mp_after_regen=max(n // 2, 5))
    elif s["regen"] == "soft":
        sim.update(N_mp_soft_regen=int(1.2 * n) + 5, N_mp_after_soft_regen=max(n // 2, 5))
    elif s["regen"] == "async":
        sim.update(N_mp_async_regen=int(1.2 * n) + 5, N_mp_after_async_regen=max(n // 2, 5))
    elif s["regen"] == "low":
        sim.update(N_mp_regen_low=max(n // 2, 3), N_mp_after_regen=n, t_ON_regen_low=1.5 * b_spac)
    if s["probes"]:
        px, py = gen.points_inside(c, s["probes"], r, 0.6)
        sim["el_density_probes"] = [dict(x=float(a), y=float(b), r_obs=float((0.3 - 0.12 * k) * min(X, Y))) for k, (a, b) in enumerate(zip(px, py))]
    if "gas" in s["prim"]:
        lam_mean = s["ppb"] / (b_spac * C)
        per_step = max(n / 40.0, 0.5)
        # P chosen so that about per_step macroparticles appear in a step
        sig, T = 1.5, 300.0
        ngas_per_ntorr = 133.32e-9 / (1.380649e-23 * T)
        P = per_step * ref / (ngas_per_ntorr * sig * 1e-22 * C * lam_mean * Dt)
        mach.update(gas_ion_flag=1, P_nTorr=P, sigma_ion_MBarn=sig, Temp_K=T, unif_frac=0.3, E_init_ion=min(s["E0"], 5.0))
        sim["t_ion"] = 1e3 if s["seed"] % 3 else 1.2 * b_spac
    if "photo" in s["prim"] and c["kind"] == "ellip":
        lam_mean = s["ppb"] / (b_spac * C)
        mats["inv_cdf.mat"] = dict(inv_CDF=np.linspace(0, np.pi, 50), u_sam=np.linspace(0, 1, 50))
        mach.update(photoem_flag=1, inv_CDF_refl_photoem_file="unif_no_file", k_pe_st=max(n / 40.0, .5) * ref / (lam_mean * Dt * C),
                    refl_frac=0.3, alimit=0.05, e_pe_sigma=5.0, e_pe_max=7.0, x0_refl=0.0, y0_refl=0.0,
                    out_radius=4 * max(X, Y), phem_resc_fac=0.999, energy_distribution="gaussian",
                    photoelectron_angle_distribution=s["ang"])
    if "unif" in s["prim"] or mach.get("gas_ion_flag", 0) == 0 and mach.get("photoem_flag", 0) == 0:
        mach.update(init_unif_flag=1, Nel_init_unif=ref * n * 0.7, E_init_unif=s["E0"], x_max_init_unif=X,
                    x_min_init_unif=-X, y_max_init_unif=Y, y_min_init_unif=-Y)
    if "edens" in s["prim"]:
        mach.update(init_unif_edens_flag=1, init_unif_edens=s["dens"] * 0.5, E_init_unif_edens=s["E0"] * 0.5,
                    x_max_init_unif_edens=0.6 * X, x_min_init_unif_edens=-0.4 * X, y_max_init_unif_edens=Y,
                    y_min_init_unif_edens=-0.9 * Y)
    beam = base_beam(sigmax=0.08 * X, sigmay=0.07 * Y, Dh_beam_field=Dh, b_spac=b_spac, fact_beam=s["ppb"],
                     coast_dens=s["coast"], sigmaz=s["sz"] * Dt * C, t_offs=s["toff"] * b_spac,
                     filling_pattern_file=pattern)
    if s["em"]:
        sim["flag_em_tracking"] = True
    cfg = dict(sim=sim, machine=mach, secem=secem_of(s["sec"], mats), beam=beam, mats=mats, clouds={}, sec_beams={})
    if s["ions"] and s["track"] != "StrongBdip":
        cfg["sim"]["cloud_name"] = "electron"
        cfg["sim"]["additional_clouds_file_list"] = ["ions.cloud"]
        cfg["clouds"]["ions.cloud"] = dict(
            cloud_mass=18 * MP, cloud_charge=E, gas_ion_flag=mach.get("gas_ion_flag", 0), photoem_flag=0,
            init_unif_flag=mach.get("init_unif_flag", 0), init_unif_edens_flag=0, switch_model="perfect_absorber",
            N_mp_regen=10 ** 9, nel_mp_ref_0=ref * 1.7, E_init_unif=1.0, E_init_ion=0.1, logfile_path="./logfile_ions.txt",
            progress_path="./progress_ions.txt", N_sub_steps=1)
        if s["ions"] > 1:
            cfg["sim"]["additional_clouds_file_list"].append("more.cloud")
            cfg["clouds"]["more.cloud"] = dict(
                cloud_mass=40 * gen.M_E, cloud_charge=-2 * E, gas_ion_flag=0, photoem_flag=0,
                init_unif_flag=1, Nel_init_unif=ref * max(n // 3, 5), init_unif_edens_flag=0, switch_model="perfect_absorber",
                N_mp_regen=10 ** 9, nel_mp_ref_0=ref * 0.8, E_init_unif=3.0, logfile_path="./logfile_more.txt",
                x_max_init_unif=0.8 * X, x_min_init_unif=-X, y_max_init_unif=Y, y_min_init_unif=-0.7 * Y,
                progress_path="./progress_more.txt", N_sub_steps=1)
    # save_mat_every must divide the number of passages
    n_pass = passes(cfg)
    if s["every"] > 1 and n_pass % s["every"] == 0:
        cfg["sim"]["save_mat_every"] = s["every"]
    return cfg


def time_axis(cfg):
    b = cfg["beam"]
    Dt = cfg["sim"]["Dt"]
    N = len(b["filling_pattern_file"])
    return np.arange(0., N * b["b_spac"] + cfg["sim"]["t_end"] + 2 * Dt, Dt)


def passes(cfg):
    return int(np.ceil(time_axis(cfg)[-1] / cfg["beam"]["b_spac"]))


def snapshot(cloud):
    """Every observable state of a cloud."""
    m = cloud.MP_e
    n = m.N_mp
    d = {k: np.array(getattr(m, k)[:n], float) for k in ("x_mp", "y_mp", "z_mp", "vx_mp", "vy_mp", "vz_mp", "nel_mp")}
    if getattr(m, "flag_lifetime_hist", False):
        d["t_last_impact"] = np.array(m.t_last_impact[:n], float)
    d["ref"] = m.nel_mp_ref
    return d


def table(cloud):
    s = snapshot(cloud)
    keys = [k for k in ("x_mp", "y_mp", "z_mp", "vx_mp", "vy_mp", "vz_mp", "nel_mp", "t_last_impact") if k in s]
    a = np.column_stack([s[k] for k in keys]) if len(s["x_mp"]) else np.zeros((0, len(keys)))
    return a


def load_out(name):
    d = sio.loadmat(name)
    return {k: v for k, v in d.items() if not k.startswith("__")}

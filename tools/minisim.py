"""Helpers for the demonstrations: tiny build-up simulations in the current (scratch) directory."""
import numpy as np
import scipy.io as sio
from PyECLOUD.buildup_simulation import BuildupSimulation

qe, me, mp, c = 1.602176634e-19, 9.1093837015e-31, 1.67262192369e-27, 299792458.0


def lit(v):
    if isinstance(v, np.ndarray):
        return "np.array(%r)" % (v.tolist(),)
    if isinstance(v, (list, tuple)):
        return "[" + ", ".join(lit(x) for x in v) + "]"
    if isinstance(v, dict):
        return "{" + ", ".join("%r: %s" % (k, lit(x)) for k, x in v.items()) + "}"
    return repr(v)


def dump(name, d):
    with open(name, "w") as f:
        f.write("import numpy as np\n" + "".join("%s = %s\n" % (k, lit(v)) for k, v in d.items()))


SIM = dict(machine_param_file="machine_parameters.input",
           secondary_emission_parameters_file="secondary_emission_parameters.input",
           beam_parameters_file="beam.beam", logfile_path="./logfile.txt", progress_path="./progress.txt",
           stopfile="stop", Dt=25e-12, t_end=0.0, lam_th=1e2, N_mp_max=100000, N_mp_regen=10 ** 9, N_mp_regen_low=0,
           t_ON_regen_low=1e3, N_mp_after_regen=1000, fact_split=1.5, fact_clean=1e-6, nel_mp_ref_0=1e4,
           Nx_regen=11, Ny_regen=11, Nvx_regen=11, Nvy_regen=11, Nvz_regen=11, regen_hist_cut=1e-4,
           Dt_sc=None, Dh_sc=4e-3, t_sc_ON=0.0, Dx_hist=2e-3, r_center=4e-3, Dt_En_hist=2e-10, Nbin_En_hist=20,
           En_hist_max=500.0, extract_sey=False, filen_main_outp="out.mat")
SEC = dict(Emax=300.0, del_max=1.6, R0=0.7, E_th=35.0, sigmafit=1.0828, mufit=1.6636, switch_model=0,
           switch_no_increase_energy=0, thresh_low_energy=-1, scrub_en_th=20.0, secondary_angle_distribution="cosine_3D")
BEAM = dict(energy_eV=4.5e11, sigmax=1e-3, sigmay=1e-3, beam_field_file="computeFD", Dh_beam_field=2e-3, b_spac=5e-10,
            fact_beam=1e11, coast_dens=0.0, flag_bunched_beam=1, sigmaz=0.015, t_offs=2e-10, filling_pattern_file=[1.0])
MACH = dict(chamb_type="rect", x_aper=0.02, y_aper=0.015, track_method="Boris", B0x=0.0, B0y=0.0, B0z=0.0, N_sub_steps=1,
            init_unif_flag=1, Nel_init_unif=5e5, E_init_unif=20.0, x_max_init_unif=0.02, x_min_init_unif=-0.02,
            y_max_init_unif=0.015, y_min_init_unif=-0.015)


def write(sim={}, mach={}, sec={}, beam={}, **files):
    dump("simulation_parameters.input", dict(SIM, **sim))
    dump("machine_parameters.input", dict(MACH, **mach))
    dump("secondary_emission_parameters.input", dict(SEC, **sec))
    dump("beam.beam", dict(BEAM, **beam))
    for n, d in files.items():
        dump(n + (".cloud" if not n.startswith("beam") else ".beam"), d)


def make(**kw):
    return BuildupSimulation(pyecl_input_folder="./", **kw)


def out(name="out.mat"):
    return {k: np.squeeze(v) for k, v in sio.loadmat(name).items() if not k.startswith("__")}

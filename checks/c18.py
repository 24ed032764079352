"""C18: from input files and overriding arguments to the running simulation."""
import copy
import functools
import os
import types
from types import SimpleNamespace

import numpy as np
import scipy.io as sio
from hypothesis import strategies as st

from vlib import buildup as bu, gen, params, pye, sey
from vlib.harness import Check, require

fl = gen.fl
check = Check("C18", rule="a case is non-trivial when at least one parameter was given explicitly and one left out (merging), when macroparticles "
              "existed (whole simulations) or when a broken input was offered (refusals)",
              assumptions=["the table of parameters, of those that must be given and of the defaults is the one of the pinned revision (vlib/params.py)",
                           "a component is wired correctly when all its numeric attributes equal those of one built directly with named arguments",
                           "a parameter that a chosen option cannot do without counts as mandatory for it"])

MAIN = {"sim": params.SIM, "machine": params.MACHINE, "secem": params.SECEM}
FILES = {"machine_param_file", "secondary_emission_parameters_file", "beam_parameters_file"}
FILE_OF = {"sim": bu.SIM_FILE, "machine": "machine_parameters.input", "secem": "secondary_emission_parameters.input", "beam": "beam.beam"}


def scratch(f):
    @functools.wraps(f)
    def g(s):
        with pye.TempDir():
            return f(s)
    return g


def config_error():
    return pye.input_parameters_format_specification.PyECLOUD_ConfigException


# ------------------------------------------------------------------ values as Python source

values = st.one_of(
    st.integers(-5, 10 ** 6).map(repr), fl(-1e3, 1e3).map(repr), st.sampled_from(["True", "False", "None", "''", "'abc'", "-1", "1e-9", "0", "0."]),
    st.lists(st.integers(0, 9), max_size=3).map(repr), st.lists(st.integers(0, 9), max_size=3).map(lambda l: "(" + "".join("%d, " % x for x in l) + ")" if l else "()"),
    st.sampled_from(["2*pi", "np.array([1., 2.5])", "np.pi/3", "{'a': 1, 'b': [2.]}", "4*(2*[1.]+[0.])", "_helper", "np.float64(3)", "1e11*_helper"]))
HELPERS = "import numpy as np\nimport os as _os\n_helper = 4.25\n"


def value(src):
    return eval(src, {"np": np, "pi": np.pi, "_helper": 4.25})


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, np.ndarray):
        return a.dtype == b.dtype and np.array_equal(a, b)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


def is_default(got, want):
    if isinstance(want, (list, tuple)):
        return isinstance(got, (list, tuple)) and len(got) == len(want) == 0
    if isinstance(want, float) and abs(want) not in (0.0, 1.0) and not isinstance(got, bool):
        return isinstance(got, float) and abs(got - want) <= 1e-6 * abs(want)
    if isinstance(want, bool) or want is None or isinstance(want, str):
        return got is want or (type(got) is type(want) and got == want)
    return not isinstance(got, bool) and got is not None and got == want


def put(name, d, extra=""):
    folder = os.path.dirname(name)
    if folder:
        os.makedirs(folder, exist_ok=True)
    with open(name, "w") as f:
        f.write(HELPERS + extra + "".join("%s = %s\n" % kv for kv in d.items()))


def mandatory_sources(kinds, r):
    d = {}
    for k in kinds:
        for p in sorted(k[0]):
            d[p] = repr(float(r.rand())) if p not in FILES else None
    return d


def pick(kind):
    return st.lists(st.tuples(st.sampled_from(sorted(kind[1])), values), max_size=14, unique_by=lambda t: t[0])


@check.sub("merge", st.fixed_dictionaries(dict(
    sim=pick(params.SIM), machine=pick(params.MACHINE), secem=pick(params.SECEM), man=st.lists(values, min_size=4, max_size=4), seed=gen.seeds,
    folder=st.sampled_from(["./", ".", "in", "in/", "in/side"]), names=st.booleans(), pi=st.booleans())), quick=150, thorough=4000)
@scratch
def merge(s):
    """Main files: what is given arrives, with its type; the rest takes the documented default; nothing else is there."""
    r = gen.rng(s["seed"])
    os.makedirs(s["folder"], exist_ok=True)
    fn = {f: ("x_%s.inp" % f if s["names"] else FILE_OF[k]) for f, k in
          zip(sorted(FILES), ("beam", "machine", "secem"))}
    expect, defaults = {}, {}
    for k, kind in MAIN.items():
        src = {}
        for p in sorted(kind[0]):
            src[p] = repr(fn[p]) if p in FILES else (s["man"][r.randint(4)] if r.rand() < 0.5 else repr(float(r.rand())))
        src.update(dict(s[k]))
        items = list(src.items())
        r.shuffle(items)
        name = bu.SIM_FILE if k == "sim" else fn["machine_param_file" if k == "machine" else "secondary_emission_parameters_file"]
        put(os.path.join(s["folder"], name), dict(items), "from numpy import pi\n" if s["pi"] else "")
        expect.update({p: value(v) for p, v in src.items()})
        defaults.update({p: v for p, v in kind[1].items() if p not in src})
    put(os.path.join(s["folder"], fn["beam_parameters_file"]), {p: "1." for p in params.BEAM[0]})
    got = pye.init.read_parameter_files(s["folder"], skip_beam_files=bool(s["seed"] % 2))
    require(set(got) == set(expect) | set(defaults), lambda: "parameters missing %s or added %s" % (
        (set(expect) | set(defaults)) - set(got), set(got) - set(expect) - set(defaults)))
    for p, v in expect.items():
        require(same(got[p], v), lambda: "%s is %r, given %r" % (p, got[p], v))
    for p, v in defaults.items():
        require(is_default(got[p], v), lambda: "%s is %r, default %r" % (p, got[p], v))
        require(not isinstance(got[p], (list, dict, set, np.ndarray)),
                lambda: "the default of %s can be changed in place, for all simulations that follow" % p)
    return "merged" if s["sim"] or s["machine"] or s["secem"] else None


@check.sub("cloud", st.fixed_dictionaries(dict(
    main=st.lists(st.tuples(st.sampled_from(sorted(params.CLOUD[0] | params.CLOUD[1])), values), max_size=14, unique_by=lambda t: t[0]),
    own=st.lists(st.tuples(st.sampled_from(sorted(params.CLOUD[1])), values), max_size=14, unique_by=lambda t: t[0]),
    second=st.lists(st.tuples(st.sampled_from(sorted(params.CLOUD[1])), values), max_size=6, unique_by=lambda t: t[0]),
    man=st.lists(values, min_size=7, max_size=7), folder=st.sampled_from(["./", "in/", "some.folder/"]),
    out=st.sampled_from(["Pyecltest.mat", "res/out.mat", "name"]), cname=st.sampled_from([None, "elec"]))), quick=150, thorough=4000)
@scratch
def cloud(s):
    """Clouds: own value first, then the one of the main input; the main object and other clouds unaffected."""
    allp = sorted(params.CLOUD[0] | params.CLOUD[1])
    main = {p: ("main", p) for p in allp}
    main.update({p: value(v) for p, v in s["main"]})
    main.update(filen_main_outp=s["out"], cloud_name=s["cname"])
    obj = types.SimpleNamespace(**copy.deepcopy(main))
    files = []
    for k, own in (("ions", s["own"]), ("more", s["second"])):
        src = dict(zip(sorted(params.CLOUD[0]), s["man"] if k == "ions" else s["man"][::-1]))
        src.update(own)
        put(os.path.join(s["folder"], k + ".cloud"), src)
        files.append((k, src))
    base = s["out"][:-4] if s["out"].endswith(".mat") else s["out"]

    def judge(cc, exp, name, out):
        for p in allp:
            require(hasattr(cc, p), "%s lost" % p)
            require(same(getattr(cc, p), exp[p]), lambda: "%s: %s is %r, expected %r" % (name, p, getattr(cc, p), exp[p]))
        require(cc.cloud_name == name, lambda: "cloud called %r, expected %r" % (cc.cloud_name, name))
        require(cc.filen_main_outp == out, lambda: "output of %s in %r, expected %r" % (name, cc.filen_main_outp, out))
    res = []
    for k, src in files:
        d = pye.parse_cloud_file.cloud_descr_from_file(cloudfilename=os.path.join(s["folder"], k + ".cloud"), default_param_obj=obj)
        exp = dict(main)
        exp.update({p: value(v) for p, v in src.items()})
        res.append((d.cc, exp, k, base + "_" + k + ".mat"))
    d = pye.parse_cloud_file.cloud_descr_from_file(cloudfilename=None, default_param_obj=obj)
    res.append((d.cc, main, s["cname"] or "default", base + "_elec.mat" if s["cname"] else s["out"]))
    for x in res:
        judge(*x)
    for p, v in main.items():
        require(same(getattr(obj, p), v), lambda: "reading the clouds changed %s of the main input" % p)
    return "cloud" if s["own"] else None


@check.sub("beam", st.fixed_dictionaries(dict(
    own=pick(params.BEAM), man=st.lists(values, min_size=7, max_size=7), e=gen.logfl(2e9, 7e12), mach=st.booleans())), quick=120, thorough=3000)
@scratch
def beam(s):
    """Beam files: given values and defaults; optics in the beam file before those of the machine."""
    src = dict(zip(sorted(params.BEAM[0]), s["man"]))
    src["energy_eV"] = repr(s["e"])
    own = dict(s["own"])
    for p in ("sigmax", "sigmay", "Dx", "Dy", "betafx", "betafy", "nemittx", "nemitty", "Dp_p", "m0_part"):
        # sizes and what they are computed from must be numbers (the computation itself is a property of the beam field)
        if p in own:
            own[p] = repr(1e-3 * (1 + len(own[p])))
    own.pop("m0_part", None)
    own.setdefault("sigmax", "1.25e-3")
    own.setdefault("sigmay", "0.75e-3")
    src.update(own)
    put("b.beam", src)
    b = pye.parse_beam_file.beam_descr_from_fil("b.beam", 12.0, 0.5, 13.0, 0.25)
    for p in sorted(params.BEAM[0] | set(params.BEAM[1])):
        if p in ("Dx", "Dy", "betafx", "betafy"):
            continue
        require(hasattr(b, p), "%s lost" % p)
        got = getattr(b, p)
        if p in src:
            require(same(got, value(src[p])), lambda: "%s is %r, given %s" % (p, got, src[p]))
        else:
            require(is_default(got, params.BEAM[1][p]), lambda: "%s is %r, default %r" % (p, got, params.BEAM[1][p]))
    return "beam" if s["own"] else None


# ------------------------------------------------------------------ whole simulations

def run(cfg=None, folder="./", seed=1, n=None, **kw):
    """Runs and returns what it leads to: the macroparticles of all clouds and the output files."""
    np.random.seed(seed)
    sim = bu.make(cfg, folder=folder, **kw)
    sp = bu.Stepper(sim)
    k = 0
    while not sp.done() and (n is None or k < n) and sp.step():
        k += 1
        if any(c.MP_e.N_mp > 15000 for c in sim.cloud_list):
            break
    names = sorted(c.pyeclsaver.filen_main_outp for c in sim.cloud_list)
    res = {"cloud %d" % i: bu.table(c) for i, c in enumerate(sim.cloud_list)}
    res["names"] = [os.path.basename(x) for x in names]
    for x in names:
        f = x if os.path.isfile(x) else x + ".mat"
        if os.path.isfile(f):
            res["output " + os.path.basename(x)] = bu.load_out(f)
    return res


def compare(a, b, what):
    require(set(a) == set(b), lambda: "%s: outputs %s and %s" % (what, sorted(a), sorted(b)))
    for k, v in a.items():
        if k == "names":
            require(v == b[k], lambda: "%s: output files %s and %s" % (what, v, b[k]))
        elif isinstance(v, dict):
            require(set(v) == set(b[k]), lambda: "%s: %s has other entries: %s" % (what, k, set(v) ^ set(b[k])))
            for q in v:
                x, y = np.asarray(v[q]), np.asarray(b[k][q])
                require(x.shape == y.shape and (x.dtype.kind not in "fiub" or np.array_equal(x.astype(float), y.astype(float), equal_nan=True)),
                        lambda: "%s: %s of the %s differs" % (what, q, k))
        else:
            require(v.shape == b[k].shape and np.array_equal(v, b[k], equal_nan=True),
                    lambda: "%s: the macroparticles of %s differ (%d and %d of them)" % (what, k, len(v), len(b[k])))
    return sum(len(v) for k, v in a.items() if k.startswith("cloud"))


small = bu.with_(steps=st.integers(8, 14), pattern=st.lists(st.sampled_from([1.0, 0.5]), min_size=1, max_size=2), extra=st.integers(0, 3),
                 nmp=st.integers(20, 80), every=st.just(1))


def decoy(v):
    if isinstance(v, bool):
        return not v
    if isinstance(v, (int, float)) and not isinstance(v, np.generic):
        return v * 1.37 + 1
    return "decoy"


@check.sub("equivalent", st.tuples(small, st.fixed_dictionaries(dict(
    how=st.sampled_from(["override", "explicit", "inherit", "folder", "syntax", "inherit"]), pick=gen.seeds, frac=st.sampled_from([0.1, 0.5, 1.0]),
    folder=st.sampled_from(["in", "in/", "./in/side", "ABS"])))).map(lambda t: dict(t[0], **t[1])), quick=60, thorough=1500, shards=3)
@scratch
def equivalent(s):
    """The same settings written in another way lead to exactly the same run."""
    cfg = bu.config(s)
    how = s["how"]
    r = gen.rng(s["pick"])
    ref = run(cfg, seed=s["seed"])
    alt = copy.deepcopy(cfg)
    os.makedirs("alt", exist_ok=True)
    kw, folder = {}, "./"
    for f in os.listdir("."):
        if f.endswith(".mat") and f not in cfg["mats"]:
            os.remove(f)
    if how == "override":
        for k in ("sim", "machine", "secem"):
            for p in sorted(alt[k]):
                if p not in FILES and r.rand() < s["frac"]:
                    kw[p] = alt[k][p]
                    if p in MAIN[k][0] or r.rand() < 0.7:
                        alt[k][p] = decoy(alt[k][p])
                    else:
                        del alt[k][p]
        # an override by the default of a parameter given in the file
        if r.rand() < 0.5:
            alt["sim"].setdefault("flag_movie", 1)
            kw.setdefault("flag_movie", 0)
    elif how == "explicit":
        for k in ("sim", "machine", "secem"):
            for p, v in MAIN[k][1].items():
                if p not in alt[k] and r.rand() < s["frac"]:
                    alt[k][p] = v
        for p, v in params.BEAM[1].items():
            if p not in alt["beam"] and r.rand() < s["frac"]:
                alt["beam"][p] = v
    elif how == "inherit":
        if not alt["clouds"]:
            return None
        allm = {}
        for k in MAIN:
            allm.update(MAIN[k][1])
        for k in MAIN:
            allm.update(alt[k])
        c = alt["clouds"]["ions.cloud"]
        for p in sorted(params.CLOUD[1]):
            if p not in c and r.rand() < s["frac"]:
                c[p] = allm[p]
    elif how == "folder":
        folder = os.path.abspath("in") + "/" if s["folder"] == "ABS" else s["folder"]
        os.makedirs(folder, exist_ok=True)
        for f in cfg["mats"]:
            if f in ("chamber.mat", "sey.mat"):
                os.remove(f)      # these are looked for beside the input files
        if "filename_chm" in alt["machine"] and r.rand() < 0.5:
            alt["machine"]["filename_chm"] = "chamber"
    if how == "syntax":
        bu.write(alt)
        for k, f in (("sim", bu.SIM_FILE), ("machine", FILE_OF["machine"]), ("secem", FILE_OF["secem"]), ("beam", "beam.beam")):
            d = list(alt[k].items())
            r.shuffle(d)
            with open(f, "w") as h:
                h.write("# comment\nimport numpy as np\nimport math, os\n_k = 2\npi = 3.141592653589793\n")
                for p, v in d:
                    if isinstance(v, float):
                        h.write("_v = (%r) / _k\n%s = _v * _k   # again\n" % (v, p))
                    else:
                        h.write("%s = %s\n" % (p, bu.lit(v)))
        res = run(None, seed=s["seed"])
    else:
        res = run(alt, folder=folder, seed=s["seed"], **kw)
    n = compare(ref, res, how)
    return how if n else None


@check.sub("isolated", st.tuples(small, small).map(list), quick=24, thorough=500, shards=2)
@scratch
def isolated(s):
    """A simulation leaves nothing behind for the next one in the same process."""
    a, b = bu.config(s[0]), bu.config(s[1])
    for k in ("A", "B", "C"):
        os.makedirs(k)
    here = os.getcwd()
    res = {}
    for k, cfg, q in (("A", a, s[0]), ("B", b, s[1]), ("C", a, s[0])):
        os.chdir(k)
        res[k] = run(cfg, seed=q["seed"])
        os.chdir(here)
    n = compare(res["A"], res["C"], "after another simulation")
    return "isolated" if n else None


# ------------------------------------------------------------------ files beside the input files, without extension, elsewhere

PLACES = ["beside", "beside_noext", "absolute", "absolute_noext", "cwd"]


@check.sub("paths", st.tuples(small, st.fixed_dictionaries(dict(
    where=st.fixed_dictionaries({k: st.sampled_from(PLACES) for k in ("chamber", "sey", "prof", "prof2", "seg", "sey2", "seg2")}),
    folder=st.sampled_from(["in", "in/", "./in/side", "ABS"]), decoy=st.booleans(), photo=st.sampled_from([3, "per_segment"]), two=st.booleans(),
    tab=sey.from_file, tab2=sey.from_file, ch=gen.chambers(kinds=("convex", "template"), aper=bu.aper), second=st.booleans()))
).map(lambda t: dict(t[0], **t[1])), quick=40, thorough=800, shards=2)
@scratch
def paths(s):
    """Chamber, SEY table, beam profiles and photoemission outline are found beside the input files first, with or without extension, then as given."""
    sey.no_sleep()
    s = dict(s, sec=s["tab"], prim=["unif"], track="Boris", ions=int(s["second"]), frac=0.0)
    cfg = bu.config(s)
    r = gen.rng(s["seed"])
    ref = cfg["sim"]["nel_mp_ref_0"]
    Vx, Vy = gen.chamber_vertices(s["ch"])
    cx, cy = gen.inscribed(Vx, Vy, 1.0)

    def outline():
        cdf = np.cumsum(r.dirichlet(np.ones(len(Vx))))
        cdf[-1] = 1.0
        return dict(Vx=Vx, Vy=Vy, x_sem_ellip_insc=cx, y_sem_ellip_insc=cy, phem_cdf=np.minimum(cdf, 1.0))
    Dt = cfg["sim"]["Dt"]
    t = np.arange(0., 2.2 * cfg["beam"]["b_spac"], Dt)
    files = {"chamber": (cfg["machine"], "filename_chm", cfg["mats"].pop("chamber.mat")), "sey": (cfg["secem"], "sey_file", cfg["mats"].pop("sey.mat")),
             "prof": (cfg["beam"], "beam_long_prof_file", dict(t=t, lam_t_array=s["ppb"] * r.rand(len(t)))),
             "seg": (cfg["machine"], "filename_chm_photoem", outline())}
    cfg["beam"].update(flag_bunched_beam=0, fact_beam=1.0)
    cfg["sim"]["save_mat_every"] = 1
    cfg["machine"].update(photoem_flag=s["photo"], k_pe_st=2 * ref / (s["ppb"] / 2 * Dt * gen.C_L), e_pe_sigma=.3, e_pe_max=1., energy_distribution="gaussian",
                          photoelectron_angle_distribution=s["ang"])
    if s["two"]:
        b2 = dict(cfg["beam"], fact_beam=.4, x_beam_pos=cfg["beam"]["sigmax"])
        cfg["sec_beams"]["two.beam"] = b2
        cfg["sim"]["secondary_beams_file_list"] = ["two.beam"]
        files["prof2"] = (b2, "beam_long_prof_file", dict(t=t, lam_t_array=s["ppb"] * r.rand(len(t))))
    if s["second"]:
        ic = cfg["clouds"]["ions.cloud"]
        own = {}
        ic.update(bu.secem_of(s["tab2"], own), cloud_mass=gen.M_E, cloud_charge=-gen.E_CH, photoem_flag=s["photo"], scrub_en_th=25.)
        files["sey2"] = (ic, "sey_file", own["sey.mat"])
        files["seg2"] = (ic, "filename_chm_photoem", outline())

    def store(name, d):
        os.makedirs(os.path.dirname(os.path.abspath(name)), exist_ok=True)
        sio.savemat(name, {k: np.asarray(v) if not isinstance(v, (dict, str)) else v for k, v in d.items()}, oned_as="row")
    for k, (d, p, content) in files.items():
        d[p] = k + ".mat"
        store("plain/" + k + ".mat", content)
    here = os.getcwd()
    os.chdir("plain")
    a = run(cfg, seed=s["seed"])
    os.chdir(here)
    folder = os.path.abspath("in") + "/" if s["folder"] == "ABS" else s["folder"]
    os.makedirs("other/run")
    other = os.path.abspath("other")
    folder = os.path.join(other, "run", folder)
    os.makedirs(folder, exist_ok=True)
    for k, (d, p, content) in files.items():
        w = s["where"][k]
        # another file of that name where the input folder must win
        wrong = {q: (v[::-1].copy() if q in ("lam_t_array",) else v) for q, v in content.items()}
        if k.startswith("prof"):
            wrong["lam_t_array"] = np.asarray(content["lam_t_array"])[::-1] * 3
        elif k.startswith("seg"):
            wrong["phem_cdf"] = np.linspace(0, 1, len(Vx) + 1)[1:]
        else:
            wrong = None
        if w.startswith("beside"):
            store(os.path.join(folder, k + ".mat"), content)
            d[p] = k if w.endswith("noext") else k + ".mat"
            if s["decoy"] and wrong is not None:
                store(os.path.join(other, "run", k + ".mat"), wrong)
        elif w.startswith("absolute"):
            if k.startswith("sey"):
                w = "absolute"       # taken as given
            f = os.path.join(other, "elsewhere", "deep", k)
            store(f + ".mat", content)
            d[p] = f if w.endswith("noext") else f + ".mat"
        else:
            store(os.path.join(other, "run", "sub_" + k, k + ".mat"), content)
            d[p] = os.path.join("sub_" + k, k + ".mat")
    os.chdir(os.path.join(other, "run"))
    b = run(cfg, folder=folder, seed=s["seed"])
    os.chdir(here)
    n = compare(a, b, "files in other places")
    return ["two beams"] * s["two"] + ["two clouds"] * s["second"] + [s["where"]["prof"]] if n else None


@check.sub("initial", st.tuples(small, st.fixed_dictionaries(dict(
    how=st.sampled_from(["name", "noext", "own", "both"]), prim0=st.sampled_from(["none", "unif"]), n=st.integers(1, 40), n2=st.integers(1, 40), lt=st.booleans(),
    E=fl(1, 50), bm=fl(.5, 5), energy=gen.logfl(1e10, 7e12), dip=st.booleans()))).map(lambda t: dict(t[0], **t[1])), quick=60, thorough=1500, shards=2)
@scratch
def initial(s):
    """Macroparticles from a saved state are there at the start as they were saved, in the cloud they were given for; B = -1 is the bending field of the beam."""
    sey.no_sleep()
    s = dict(s, prim=["unif"], ions=0 if s["dip"] else 1, track="StrongBdip" if s["dip"] else "Boris", lthist=s["lt"])
    cfg = bu.config(s)
    r = gen.rng(s["seed"])
    mach = cfg["machine"]
    mach["init_unif_flag"] = int(s["prim0"] == "unif")
    ref = cfg["sim"]["nel_mp_ref_0"]

    def state_file(name, n):
        x, y = gen.points_inside(s["ch"], n, r, .8)
        d = dict(N_mp=n, x_mp=x, y_mp=y, nel_mp=ref * r.uniform(.5, 2, n), **{k: r.normal(0, 1e6, n) for k in ("vx_mp", "vy_mp", "vz_mp")}, z_mp=r.normal(0, 1, n))
        sio.savemat(name, d, oned_as="row")
        return np.column_stack([d[k] for k in ("x_mp", "y_mp", "z_mp", "vx_mp", "vy_mp", "vz_mp", "nel_mp")])
    want = [np.zeros((0, 7)), np.zeros((0, 7))]
    if s["how"] in ("name", "noext", "both"):
        want[0] = want[1] = state_file("start.mat", s["n"])
        mach["filename_init_MP_state"] = "start" if s["how"] == "noext" else "start.mat"
    if not s["dip"]:
        cfg["clouds"]["ions.cloud"]["init_unif_flag"] = int(s["prim0"] == "unif")
    if s["how"] in ("own", "both") and not s["dip"]:
        want[1] = state_file("start2.mat", s["n2"])
        cfg["clouds"]["ions.cloud"]["filename_init_MP_state"] = "start2.mat"
    cfg["sim"]["N_mp_async_regen"] = bu.NASYNC
    if s["dip"]:
        mach.update(B=-1, bm_totlen=s["bm"])
        cfg["beam"].update(energy_eV=s["energy"])
    np.random.seed(s["seed"])
    sim = bu.make(cfg)
    k = 0
    for cl, w in zip(sim.cloud_list, want):
        a = bu.table(cl)
        own = cl.config_dict
        extra = len(a) - len(w)
        require(extra >= 0 and (extra == 0 or s["prim0"] == "unif"), lambda: "%d macroparticles at the start, %d in the saved state" % (len(a), len(w)))
        rows_a = sorted(map(tuple, a[:, :7]))
        got = set(rows_a)
        require(all(tuple(x) in got for x in w), "macroparticles of the saved state are missing or altered at the start")
        if s["lt"] and len(w):
            require(np.all(a[:, 7] == -1), "macroparticles of a saved state without times have been on the wall")
        k += len(w)
    if s["dip"]:
        d = dict(params.MACHINE[1], track_method="StrongBdip", B=2 * np.pi * np.sqrt(1 - (bu.MP * gen.C_L ** 2 / (s["energy"] * gen.E_CH)) ** 2) * s["energy"] / (gen.C_L * s["bm"]))
        for cl in sim.cloud_list:
            a, b = state(cl.dynamics), state(tracker(d, cfg["sim"]["Dt"]))
            for q in b:
                require(np.allclose(a[q], b[q], rtol=1e-7, atol=1e-12), lambda: "B = -1: %s of the tracker is %s, expected %s" % (q, a[q], b[q]))
        return ["dipole", s["how"]]
    return s["how"] if k else None


# ------------------------------------------------------------------ parameters reach the objects that need them

def state(o):
    return {k: v for k, v in vars(o).items() if isinstance(v, (bool, int, float, complex, str, np.ndarray, np.generic))}


def wired(got, ref, what, skip=()):
    require(type(got).__name__ == type(ref).__name__, lambda: "%s is a %s, expected %s" % (what, type(got).__name__, type(ref).__name__))
    a, b = state(got), state(ref)
    for k in sorted(set(a) | set(b)):
        if k in skip:
            continue
        require(k in a and k in b, lambda: "%s: only one has %s" % (what, k))
        x, y = a[k], b[k]
        ok = np.array_equal(x, y) or (np.asarray(x).dtype.kind in "fc" and np.shape(x) == np.shape(y) and np.allclose(x, y, rtol=1e-12, atol=0, equal_nan=True))
        require(ok, lambda: "%s: %s is %s, expected %s" % (what, k, np.asarray(x).ravel()[:4], np.asarray(y).ravel()[:4]))
    return len(b)


def mp_kw(d):
    return dict(N_mp_max=d["N_mp_max"], nel_mp_ref_0=d["nel_mp_ref_0"], fact_split=d["fact_split"], fact_clean=d["fact_clean"],
                N_mp_regen_low=d["N_mp_regen_low"], N_mp_regen=d["N_mp_regen"], N_mp_after_regen=d["N_mp_after_regen"], Dx_hist_reg=d["Dx_hist"],
                Nx_reg=d["Nx_regen"], Ny_reg=d["Ny_regen"], Nvx_reg=d["Nvx_regen"], Nvy_reg=d["Nvy_regen"], Nvz_reg=d["Nvz_regen"],
                regen_hist_cut=d["regen_hist_cut"], N_mp_soft_regen=d["N_mp_soft_regen"], N_mp_after_soft_regen=d["N_mp_after_soft_regen"],
                N_mp_async_regen=d["N_mp_async_regen"], N_mp_after_async_regen=d["N_mp_after_async_regen"], charge=d["cloud_charge"],
                mass=d["cloud_mass"], flag_lifetime_hist=d["flag_lifetime_hist"])


def tracker(d, Dt):
    if d["track_method"] == "Boris":
        return pye.dynamics_Boris_f2py.pusher_Boris(Dt=Dt, B0x=d["B0x"] or 0., B0y=d["B0y"] or 0., B0z=d["B0z"] or 0., B_map_file=d["B_map_file"],
                                                    fact_Bmap=d["fact_Bmap"], N_sub_steps=d["N_sub_steps"])
    if d["track_method"] == "StrongBdip":
        return pye.dynamics_dipole.pusher_dipole_magnet(Dt=Dt, B=d["B"])
    if d["track_method"] == "StrongBgen":
        return pye.dynamics_strong_B_generalized.pusher_strong_B_generalized(Dt=Dt, B0x=d["B0x"] or 0., B0y=d["B0y"] or 0., B_map_file=d["B_map_file"],
                                                                             fact_Bmap=d["fact_Bmap"], B_zero_thrhld=d["B_zero_thrhld"])
    return pye.dynamics_Boris_multipole.pusher_Boris_multipole(Dt=Dt, N_sub_steps=d["N_sub_steps"], B_multip=list(d["B_multip"]), B_skew=d["B_skew"],
                                                               B0x=d["B0x"], B0y=d["B0y"], B0z=d["B0z"])


over_cloud = st.fixed_dictionaries({}, optional={
    "fact_split": fl(1.1, 3), "fact_clean": fl(0, .1), "N_mp_regen": st.integers(10 ** 5, 10 ** 6), "N_mp_regen_low": st.just(0),
    "N_mp_after_regen": st.integers(10, 1000), "Nx_regen": st.sampled_from([5, 7, 9]), "Ny_regen": st.sampled_from([5, 7, 9]),
    "Nvx_regen": st.sampled_from([5, 7]), "Nvy_regen": st.sampled_from([5, 7]), "Nvz_regen": st.sampled_from([5, 7]), "regen_hist_cut": fl(1e-5, 1e-3),
    "N_mp_soft_regen": st.integers(10 ** 4, 10 ** 5), "N_mp_after_soft_regen": st.integers(10, 1000), "N_mp_max": st.integers(10 ** 5, 3 * 10 ** 5),
    "Nbin_En_hist": st.integers(3, 40), "En_hist_max": fl(50, 1e3), "scrub_en_th": fl(5, 60), "cos_angle_width": st.sampled_from([.05, .1, .2]),
    "Dx_hist": fl(8e-4, 3e-3), "flag_hist_impact_seg": st.sampled_from([0, 1]), "N_sub_steps": st.integers(1, 5), "E_init_ion": fl(0.01, 10),
    "P_nTorr": fl(1, 100), "sigma_ion_MBarn": fl(.5, 5), "Temp_K": fl(5, 400), "unif_frac": fl(0, 1), "nel_mp_ref_0": gen.logfl(1e3, 1e5),
    "k_pe_st": gen.logfl(1e-5, 1e-2), "refl_frac": fl(0, 1), "e_pe_sigma": fl(1, 8), "e_pe_max": fl(1, 9), "alimit": fl(.01, .3),
    "flag_continuous_emission": st.booleans(), "energy_distribution": st.sampled_from(["gaussian", "lorentz", "rect", "mono"]),
    "Nbin_lifetime_hist": st.integers(3, 30), "lifetime_hist_max": fl(1e-9, 1e-7), "flag_En_hist_seg": st.booleans(),
    "r_center": fl(1e-3, 5e-3), "t_ion": fl(-1, 1e-9), "N_mp_async_regen": st.integers(10 ** 5, 10 ** 6), "N_mp_after_async_regen": st.integers(10, 1000)})


@check.sub("wiring", st.tuples(
    bu.with_(steps=st.integers(8, 12), pattern=st.lists(st.sampled_from([1.0, 0.5]), min_size=1, max_size=2), extra=st.integers(0, 3),
             track=st.sampled_from(["Boris", "BorisMultipole", "Boris", "BorisMultipole", "StrongBdip", "StrongBgen"]), every=st.just(1), nmp=st.integers(20, 60),
             ions=st.sampled_from([1, 1, 0])),
    st.fixed_dictionaries(dict(sec2=bu.sec_models, own=over_cloud, main=over_cloud, gas=st.booleans(), gas2=st.booleans(), photo=st.sampled_from([0, 0, 1, 2]),
                               photo2=st.sampled_from([0, 0, 1, 2]), two=st.booleans(), be=st.tuples(*[st.sampled_from([None, 0, 1, 4, "mg", "mg"])] * 2), offs=fl(-0.2, 0.2), umax=fl(-.5, .6), ufrac=fl(0.05, .7),
                               sec=bu.sec_models, any2=st.integers(0, 2 ** 20), Bz=fl(-.01, .01), dh=fl(.7, 1.2)))).map(lambda t: dict(t[0], **t[1])), quick=240, thorough=1500, shards=3)
@scratch
def wiring(s):
    """Every object of the simulation equals one built directly from the values meant for it."""
    sey.no_sleep()
    if s["any2"] % 3:
        r = gen.rng(s["any2"])
        # two models of the same kind, or of different kinds
        s = dict(s, sec2=sey.random_model(r), sec=sey.random_model(r))
        if s["any2"] % 3 == 1:
            s["sec"] = sey.random_model(r, names=(s["sec2"]["model"],))
    if s["any2"] % 5 == 1:
        r = gen.rng(s["any2"])
        s = dict(s, two=True, be=[int(r.randint(5)), int(r.randint(5))] if s["ch"]["kind"] == "ellip" else ["mg", "mg"])
    s = dict(s, prim=["unif", "edens"], ions=0 if s["track"] == "StrongBgen" else s["ions"])
    cfg = bu.config(s)
    c = s["ch"]
    X, Y = bu.half_size(c)
    sim, mach, secem, bm = cfg["sim"], cfg["machine"], cfg["secem"], cfg["beam"]
    ions = "ions.cloud" in cfg["clouds"]
    ell = c["kind"] == "ellip"
    photo = dict(inv_CDF_refl_photoem_file="unif_no_file", inv_CDF_all_photoem_file="unif_no_file", k_pe_st=1e-4, refl_frac=0.3, alimit=0.05, e_pe_sigma=5.0,
                 e_pe_max=7.0, x0_refl=X * 0.999, y0_refl=0.0, out_radius=4 * max(X, Y), phem_resc_fac=0.999, energy_distribution="gaussian",
                 photoelectron_angle_distribution=s["ang"])
    mach.update(photo, gas_ion_flag=int(s["gas"]), photoem_flag=s["photo"] if ell else 0, P_nTorr=20., sigma_ion_MBarn=1.5, Temp_K=290., unif_frac=.25,
                E_init_ion=.3)
    # an asymmetric initial distribution in a box around the middle
    mach.update(init_unif_flag=1, Nel_init_unif=sim["nel_mp_ref_0"] * s["nmp"], E_init_unif=s["E0"],
                x_max_init_unif=(abs(s["umax"]) + .3) * .5 * X, x_min_init_unif=-s["ufrac"] * .5 * X, y_max_init_unif=.4 * Y * s["ufrac"], y_min_init_unif=-.1 * Y)
    mach["init_unif_edens_flag"] = 0
    if s["track"] == "StrongBgen":
        mach.update(B0x=s["B"] * .2, B0y=s["B"] * 1.1, B_zero_thrhld=1e-13)
    if s["track"] == "BorisMultipole":
        mach["B0z"] = s["Bz"]
    main = {k: v for k, v in s["main"].items() if k != "nel_mp_ref_0"}
    sim.update({k: v for k, v in main.items() if k in sim or k in params.SIM[1]})
    mach.update({k: v for k, v in main.items() if k in params.MACHINE[1]})
    secem.update({k: v for k, v in main.items() if k == "scrub_en_th"})
    bm.update(x_beam_pos=s["offs"] * X, y_beam_pos=-.6 * s["offs"] * Y)
    def other_field(b, n, k):
        if n == "mg":
            sx, sy = 1.5 * b["sigmax"] * (1 + .1 * k), 1.5 * b["sigmay"]
            x, y = b["x_beam_pos"], b["y_beam_pos"] = .3 * b["x_beam_pos"], .3 * b["y_beam_pos"]
            b.update(beam_field_file="compute_FDSW_multigrid", f_telescope_beam=.5 - .1 * k, N_nodes_discard_beam=1. + k, N_min_Dh_main_beam=2 + k,
                     target_grid_beam=dict(x_min_target=x - sx, x_max_target=x + sx, y_min_target=y - sy, y_max_target=y + sy, Dh_target=.2 * b["sigmax"]))
        elif n is not None and ell and abs(X / Y - 1) > .05 and abs(b["sigmax"] / b["sigmay"] - 1) > .03:
            b.update(beam_field_file="computeBE", nimag=n, Nx=9 + k, Ny=12 - k, Dh_beam_field=None, x_beam_pos=0., y_beam_pos=0.)
    other_field(bm, s["be"][0], 0)
    if s["two"]:
        sim["secondary_beams_file_list"] = ["two.beam"]
        cfg["sec_beams"]["two.beam"] = dict(bm, t_offs=bm["t_offs"] * 0.7, fact_beam=0.3 * bm["fact_beam"], sigmax=1.2 * bm["sigmax"], q_part=2 * gen.E_CH,
                                            x_beam_pos=-s["offs"] * .5 * X, b_spac=bm["b_spac"] * 1.1, Dh_beam_field=sim["Dh_sc"] * s["dh"] * .9, beam_field_file=-1)
        other_field(cfg["sec_beams"]["two.beam"], s["be"][1], 1)
    if ions:
        ic = cfg["clouds"]["ions.cloud"]
        ic.update(gas_ion_flag=int(s["gas2"]), photoem_flag=s["photo2"] if ell else 0, init_unif_flag=1, x_max_init_unif=.2 * X)
        m2 = {}
        own2 = bu.secem_of(s["sec2"], m2)
        if "sey.mat" in m2:
            cfg["mats"]["sey2.mat"] = m2["sey.mat"]
            own2["sey_file"] = "sey2.mat"
        # a parameter of the main model that the second one does not know is taken back
        for p in ("Emax", "del_max", "R0", "E0", "s_param"):
            if p not in own2:
                own2[p] = None
        ic.update(own2)
        ic.update(s["own"])
        ic["Nel_init_unif"] = 30.4 * ic["nel_mp_ref_0"]
    allv = {}
    for k in MAIN:
        allv.update(MAIN[k][1])
    for k in MAIN:
        allv.update(cfg[k])
    np.random.seed(s["seed"])
    try:
        S = bu.make(cfg)
    except ValueError as e:
        # the chamber has no room for the refined grid
        if "mg" in s["be"] and "internal grid is outside" in str(e):
            return None
        raise
    chm = S.chamb
    ref_ch = gen.build_chamber(c) if ell or c["kind"] == "rect" else None
    if ref_ch is not None:
        wired(chm, ref_ch, "chamber", skip=("N_mp_impact", "N_mp_corrected"))
    Dt = sim["Dt"]
    BT = pye.beam_and_timing.beam_and_timing

    def beam_of(b, **kw):
        return BT(flag_bunched_beam=b["flag_bunched_beam"], fact_beam=b["fact_beam"], coast_dens=b["coast_dens"], beam_charge=b.get("q_part", gen.E_CH),
                  beam_field_file=b["beam_field_file"], lam_th_beam_field=sim["lam_th"], b_spac=b["b_spac"], sigmaz=b["sigmaz"], t_offs=b["t_offs"],
                  filling_pattern_file=b["filling_pattern_file"], Dt=Dt, t_end=sim["t_end"], Dh_beam_field=b["Dh_beam_field"], chamb=chm,
                  sigmax=b["sigmax"], sigmay=b["sigmay"], x_beam_pos=b["x_beam_pos"], y_beam_pos=b["y_beam_pos"],
                  **{k: b.get(k) for k in ("Nx", "Ny", "nimag", "f_telescope_beam", "target_grid_beam", "N_nodes_discard_beam", "N_min_Dh_main_beam")}, **kw)

    def field(b):
        x, y = gen.points_inside(c, 40, gen.rng(s["seed"]), .8)
        keep, b.lam_t_curr = b.lam_t_curr, 10 * sim["lam_th"]
        E = b.get_beam_eletric_field(SimpleNamespace(N_mp=40, x_mp=x, y_mp=y))
        b.lam_t_curr = keep
        return np.array(E)

    def same_beam(got, ref, what):
        wired(got, ref, what)
        require(np.allclose(field(got), field(ref), rtol=1e-9, atol=0), what + ": field differs from that of a beam made from its own parameters")
    rb = beam_of(bm)
    same_beam(S.beamtim, rb, "beam")
    if s["two"]:
        same_beam(S.sec_beams_list[0], beam_of(cfg["sec_beams"]["two.beam"], flag_secodary_beam=True, t_primary_beam=rb.t), "second beam")
    require(len(S.sec_beams_list) == int(s["two"]) and len(S.cloud_list) == 1 + int(ions), "clouds or beams missing")
    sc = pye.space_charge_class.space_charge(chamb=chm, Dh=sim["Dh_sc"], Dt_sc=sim["Dt_sc"])
    wired(S.spacech_ele, sc, "space charge")
    require(S.t_sc_ON == sim["t_sc_ON"], "t_sc_ON")
    for i, cl in enumerate(S.cloud_list):
        d, what, m = dict(allv), "cloud %d" % i, s["sec"]
        if i:
            d.update(cfg["clouds"]["ions.cloud"])
            m = s["sec2"]
        mp = pye.MP_system.MP_system(chamb=chm, name=cl.name, **mp_kw(d))
        wired(cl.MP_e, mp, what, skip={"N_mp"} | {k for k, v in vars(mp).items() if k.endswith("_mp") or k == "t_last_impact"})
        require(cl.MP_e.x_mp.shape == mp.x_mp.shape, "%s: storage" % what)
        mod = cl.impact_man.sey_mod
        refm = sey.build(m)
        r = gen.rng(s["seed"] + i)
        b = sey.impact_batch(r, 200, np.concatenate([r.rand(60) * 600, 10 ** (3 * r.rand(140) - .5)]), r.rand(200) * .98 + .01, mass=cl.MP_e.mass)
        np.random.seed(s["seed"])
        got = sey.impacts(mod, copy.deepcopy(b), 0.7)
        np.random.seed(s["seed"])
        exp = sey.impacts(refm, copy.deepcopy(b), 0.7)
        for k in exp:
            if k.startswith("i_seg"):
                continue
            x, y = np.asarray(got[k]), np.asarray(exp[k])
            require(x.shape == y.shape and (x.dtype.kind not in "fiu" or np.allclose(x, y, rtol=1e-11, atol=0)),
                    lambda: "%s: secondary emission (%s) differs in %s from the configured model" % (what, m["model"], k))
        seg = bool(d["flag_hist_impact_seg"]) and not ell
        im = pye.impact_management_class.impact_management(
            chm, refm, d["Dx_hist"], d["scrub_en_th"], d["Nbin_En_hist"], d["En_hist_max"], d["Nbin_lifetime_hist"], d["lifetime_hist_max"],
            d["flag_lifetime_hist"], flag_seg=seg, flag_En_hist_seg=d["flag_En_hist_seg"], cos_angle_width=d["cos_angle_width"])
        wired(cl.impact_man, im, what + ", impacts")
        dy = tracker(d, Dt)
        wired(cl.dynamics, dy, what + ", tracker")
        if d["gas_ion_flag"]:
            g = pye.gas_ionization_class.residual_gas_ionization(unif_frac=d["unif_frac"], P_nTorr=d["P_nTorr"], sigma_ion_MBarn=d["sigma_ion_MBarn"],
                                                                 Temp_K=d["Temp_K"], chamb=chm, E_init_ion=d["E_init_ion"],
                                                                 flag_lifetime_hist=d["flag_lifetime_hist"])
            wired(cl.resgasion, g, what + ", gas")
        else:
            require(not cl.gas_ion_flag, "%s: gas ionization is on" % what)
        if d["photoem_flag"]:
            P = pye.gen_photoemission_class
            common = dict(k_pe_st=d["k_pe_st"], e_pe_sigma=d["e_pe_sigma"], e_pe_max=d["e_pe_max"], out_radius=d["out_radius"], chamb=chm,
                          resc_fac=d["phem_resc_fac"], energy_distribution=d["energy_distribution"],
                          photoelectron_angle_distribution=d["photoelectron_angle_distribution"], beamtim=rb,
                          flag_continuous_emission=d["flag_continuous_emission"])
            if d["photoem_flag"] == 1:
                p = P.photoemission(inv_CDF_refl_photoem_file=d["inv_CDF_refl_photoem_file"], refl_frac=d["refl_frac"], alimit=d["alimit"],
                                    x0_refl=d["x0_refl"], y0_refl=d["y0_refl"], **common)
            else:
                p = P.photoemission_from_file(inv_CDF_all_photoem_file=d["inv_CDF_all_photoem_file"], **common)
            wired(cl.phemiss, p, what + ", photoemission")
            tabs = []
            for o in (cl.phemiss, p):
                q = pye.MP_system.MP_system(chamb=chm, **mp_kw(d))
                np.random.seed(s["seed"])
                lam = 60 * q.nel_mp_ref / (d["k_pe_st"] * Dt * gen.C_L)
                o.generate(q, lam, Dt)
                tabs.append(np.array([getattr(q, k)[:q.N_mp] for k in ("x_mp", "y_mp", "vx_mp", "vy_mp", "vz_mp", "nel_mp")]))
            require(tabs[0].shape == tabs[1].shape and np.allclose(tabs[0], tabs[1], rtol=1e-11, atol=0, equal_nan=True), "%s: photoelectrons differ from the configured ones" % what)
        else:
            require(not cl.photoem_flag, "%s: photoemission is on" % what)
        require(cl.t_ion == d["t_ion"], "%s: t_ion" % what)
        n = cl.MP_e.N_mp
        x, y = cl.MP_e.x_mp[:n], cl.MP_e.y_mp[:n]
        ref = d["nel_mp_ref_0"]
        require(abs(cl.MP_e.nel_mp[:n].sum() - d["Nel_init_unif"]) <= ref * 1.0001, "%s: initial charge %s, asked for %s" % (what, cl.MP_e.nel_mp[:n].sum(), d["Nel_init_unif"]))
        eps = 1e-12
        require(np.all((x <= d["x_max_init_unif"] + eps) & (x >= d["x_min_init_unif"] - eps) & (y <= d["y_max_init_unif"] + eps) & (y >= d["y_min_init_unif"] - eps)),
                "%s: initial distribution beyond its limits" % what)
        if n > 40:
            require(x.max() > d["x_max_init_unif"] - .5 * (d["x_max_init_unif"] - d["x_min_init_unif"]) and y.max() > .5 * d["y_max_init_unif"] + .5 * d["y_min_init_unif"],
                    "%s: initial distribution leaves part of its box empty" % what)
        E = .5 * cl.MP_e.mass * (cl.MP_e.vx_mp[:n] ** 2 + cl.MP_e.vy_mp[:n] ** 2 + cl.MP_e.vz_mp[:n] ** 2) / abs(cl.MP_e.charge)
        require(np.all(E <= d["E_init_unif"] * (1 + 1e-9)), "%s: initial energies above E_init_unif" % what)
    return "two-clouds" if ions else "one-cloud"


# ------------------------------------------------------------------ refusals

def base(r=None, cloud=False, two=False):
    cfg = dict(sim=bu.base_sim(), machine=dict(chamb_type="rect", x_aper=.02, y_aper=.018, track_method="Boris", B0x=0., B0y=0., B0z=0., init_unif_flag=1,
                                               Nel_init_unif=3e5, E_init_unif=1.), secem=bu.base_secem(), beam=bu.base_beam(), mats={}, clouds={}, sec_beams={}, raw={})
    if cloud:
        cfg["sim"].update(cloud_name="electron", additional_clouds_file_list=["ions.cloud"])
        cfg["clouds"]["ions.cloud"] = dict(cloud_mass=18 * bu.MP, cloud_charge=bu.E, gas_ion_flag=0, photoem_flag=0, init_unif_flag=1, init_unif_edens_flag=0,
                                           switch_model="perfect_absorber", logfile_path="l2.txt", progress_path="p2.txt")
    if two:
        cfg["sim"]["secondary_beams_file_list"] = ["two.beam"]
        cfg["sec_beams"]["two.beam"] = bu.base_beam(t_offs=1e-10)
    return cfg


def attempt(cfg, **kw):
    """The exception that keeps the simulation from starting, or None."""
    try:
        sim = bu.make(cfg, **kw)
    except Exception as e:
        return e
    require(sim is not None, "no simulation")
    return None


def part(cfg, where):
    return cfg["clouds"]["ions.cloud"] if where == "cloud" else cfg["sec_beams"]["two.beam"] if where == "two" else cfg[where]


WHERE = ["sim", "machine", "secem", "beam", "cloud", "two"]
KIND = dict(MAIN, beam=params.BEAM, two=params.BEAM, cloud=params.CLOUD)
ANY_MAIN = set().union(*[k[0] | set(k[1]) for k in MAIN.values()])


def allowed(where):
    return ANY_MAIN if where in MAIN else KIND[where][0] | set(KIND[where][1])


EVERY = sorted(ANY_MAIN | allowed("beam") | allowed("cloud"))


@check.sub("format", st.one_of(
    st.fixed_dictionaries(dict(how=st.just("missing"), where=st.sampled_from(["sim", "secem", "beam", "cloud", "two"]), i=st.integers(0, 200))),
    st.fixed_dictionaries(dict(how=st.just("misplaced"), where=st.sampled_from(WHERE), i=st.integers(0, 500))),
    st.fixed_dictionaries(dict(how=st.just("misspelled"), where=st.sampled_from(WHERE + ["override"]), i=st.integers(0, 500), j=st.integers(0, 30), how2=st.integers(0, 4))),
    st.fixed_dictionaries(dict(how=st.just("twice"), where=st.sampled_from([["sim", "machine"], ["sim", "secem"], ["machine", "secem"]]), i=st.integers(0, 500),
                               equal=st.booleans())),
    st.fixed_dictionaries(dict(how=st.just("fine"), where=st.sampled_from(WHERE), what=st.sampled_from(["_x = 3", "import math", "pi = 3.14", "from numpy import pi", "_f = lambda x: x"]))),
), quick=160, thorough=3000, shards=2)
@scratch
def format(s):
    """Input files with a parameter missing, unknown, in the wrong file or given twice."""
    cfg = base(cloud=True, two=True)
    how, w, kw = s["how"], s["where"], {}
    if how == "fine":
        bu.write(cfg)
        f = {"cloud": "ions.cloud", "two": "two.beam"}.get(w) or FILE_OF[w]
        text = open(f).read()
        open(f, "w").write(s["what"] + "\n" + text)
        e = attempt(None)
        require(e is None, lambda: "%r in %s is refused: %r" % (s["what"], f, e))
        return "accepted"
    if how == "missing":
        names = sorted(KIND[w][0] - FILES)
        p = names[s["i"] % len(names)]
        part(cfg, w).pop(p, None)
    elif how == "misplaced":
        bad = [p for p in EVERY if p not in allowed(w)]
        p = bad[s["i"] % len(bad)]
        part(cfg, w)[p] = 1.0
    elif how == "misspelled":
        p = EVERY[s["i"] % len(EVERY)]
        j = s["j"] % len(p)
        p = [p + "x", p[:j] + p[j + 1:], p[:j] + p[j].swapcase() + p[j + 1:], p[:j] + "z" + p[j:], p + "_2"][s["how2"]]
        if p in EVERY or not p.isidentifier() or p == "pi" or p.startswith("_"):
            return None
        if w == "override":
            kw[p] = 1.0
        else:
            part(cfg, w)[p] = 1.0
    elif how == "twice":
        a, b = w
        names = sorted(set(cfg[a]) - FILES)
        p = names[s["i"] % len(names)]
        cfg[b][p] = cfg[a][p] if s["equal"] else decoy(cfg[a][p])
    e = attempt(cfg, **kw)
    require(e is not None, lambda: "%s parameter %s (%s) is accepted" % (how, p, w))
    require(isinstance(e, config_error()), lambda: "%s parameter %s (%s): %s instead of a configuration error" % (how, p, w, type(e).__name__))
    require(not any(f.startswith("Pyecltest") for f in os.listdir(".")), "an output file was begun")
    return how


GAS = dict(gas_ion_flag=1, P_nTorr=30., sigma_ion_MBarn=1.5, Temp_K=300., unif_frac=0.1, E_init_ion=0.1)
PHO = dict(photoem_flag=1, inv_CDF_refl_photoem_file="unif_no_file", k_pe_st=1e-5, refl_frac=.2, alimit=.05, e_pe_sigma=5., e_pe_max=7., x0_refl=.0199, y0_refl=0.,
           out_radius=.1, phem_resc_fac=.999, energy_distribution="gaussian", photoelectron_angle_distribution="cosine_3D")
PHF = {k: v for k, v in PHO.items() if k not in ("inv_CDF_refl_photoem_file", "refl_frac", "alimit", "x0_refl", "y0_refl")}
PHF.update(photoem_flag="from_file", inv_CDF_all_photoem_file="unif_no_file")
UNI = dict(init_unif_flag=1, Nel_init_unif=1e5)
EDE = dict(init_unif_edens_flag=1, init_unif_edens=1e8)
REMOVE = "<left out>"


def cases():
    out = []

    def add(name, **parts):
        out.append((name, parts))
    for grp, label in ((GAS, "gas ionization"), (PHO, "photoemission"), (PHF, "photoemission from file"), (UNI, "uniform charge"), (EDE, "uniform density")):
        for p in list(grp)[1:]:
            if p in ("phem_resc_fac", "energy_distribution", "e_pe_max"):
                continue
            out.append(("%s without %s" % (label, p), dict(machine=dict(grp, **{p: REMOVE}))))
    for f in (4, "foo", None, -1):
        add("photoem_flag %r" % (f,), machine=dict(PHO, photoem_flag=f))
    for f in (2, "foo", None, -1):
        add("gas_ion_flag %r" % (f,), machine=dict(GAS, gas_ion_flag=f))
    for m in ("foo", 2, None, -1, "ECLOUD_nunif", "from_file", "furman_pivi"):
        add("switch_model %r" % (m,), secem=dict(switch_model=m))
    for m in (0, "ECLOUD", 1, "ACC_LOW", "cos_low_ene", "flat_low_ene"):
        for p in ("Emax", "del_max", "R0"):
            add("%r without %s" % (m, p), secem={"switch_model": m, p: REMOVE})
        add("%r without angles" % (m,), secem=dict(switch_model=m, secondary_angle_distribution=REMOVE))
        add("%r unknown angles" % (m,), secem=dict(switch_model=m, secondary_angle_distribution="foo"))
    for m in ("ACC_LOW", "cos_low_ene", "flat_low_ene"):
        add("s_param of %s" % m, secem=dict(switch_model=m, s_param=1.4))
    add("unknown chamber", machine=dict(chamb_type="foo"))
    add("chamber without file", machine=dict(chamb_type="polyg"))
    add("chamber file missing", machine=dict(chamb_type="polyg", filename_chm="none.mat"))
    add("chamber without size", machine=dict(x_aper=REMOVE))
    add("unknown tracker", machine=dict(track_method="foo"))
    add("no sub-step", machine=dict(N_sub_steps=0))
    add("StrongBgen without threshold", machine=dict(track_method="StrongBgen"))
    add("dipole field from energy without length", machine=dict(track_method="StrongBdip", B=-1))
    add("field map missing", machine=dict(B_map_file="none.mat"))
    add("unknown photoelectron energies", machine=dict(PHO, energy_distribution="foo"))
    add("unknown photoelectron angles", machine=dict(PHO, photoelectron_angle_distribution="foo"))
    add("photoemission file missing", machine=dict(PHO, inv_CDF_refl_photoem_file="none.mat"))
    add("electromagnetic without Dt_sc", sim=dict(flag_em_tracking=True), machine=dict(track_method="BorisMultipole"))
    for t in ("Boris", "StrongBdip"):
        add("electromagnetic with %s" % t, sim=dict(flag_em_tracking=True, Dt_sc=1e-10), machine=dict(track_method=t))
    add("unknown field solver", sim=dict(PyPICmode="foo", Dt_sc=1e-10))
    add("unknown matrix solver", sim=dict(sparse_solver="foo", Dt_sc=1e-10))
    add("telescopic grids without parameters", sim=dict(PyPICmode="ShortleyWeller_WithTelescopicGrids", Dt_sc=1e-10))
    add("only x_min_hist_det", sim=dict(x_min_hist_det=-.01))
    for p in ("Nbin_lifetime_hist", "lifetime_hist_max", "Dt_lifetime_hist"):
        d = dict(flag_lifetime_hist=True, Nbin_lifetime_hist=10, lifetime_hist_max=1e-9, Dt_lifetime_hist=1e-9)
        d.pop(p)
        add("lifetimes without %s" % p, sim=d)
    add("checkpoints without folder", sim=dict(checkpoint_DT=1e-10))
    add("copies without folder", sim=dict(copy_main_outp_DT=1e-10))
    add("cross-ionization of unknown clouds", sim=dict(cross_ion_definitions={"a": {}}))
    add("energies extracted without parameters", sim=dict(extract_ene_dist=True))
    add("save_mat_every not dividing", sim=dict(save_mat_every=7))
    for p in ("sigmaz", "Dh_beam_field", "sigmax", "sigmay"):
        add("beam without %s" % p, beam={p: REMOVE})
        out.append(("second beam without %s" % p, dict(two={p: REMOVE})))
    add("profile from file without file", beam=dict(flag_bunched_beam=0))
    add("image formula in a rectangle", beam=dict(beam_field_file="computeBE", Nx=10, Ny=10, nimag=3))
    add("ions in a strong-field tracker", machine=dict(track_method="StrongBdip"), cloud={})
    add("second cloud of the same name", cloud=dict(), same_name=True)
    add("second cloud named as the first", cloud=dict(), main_name=True)
    for m in ("machine_param_file", "secondary_emission_parameters_file"):
        out.append(("%s replaced" % m, dict(override=m)))
    for p in ("P_nTorr", "Temp_K"):
        out.append(("cloud gas without %s" % p, dict(cloud=dict(GAS, **{p: REMOVE}))))
    for p in ("k_pe_st", "out_radius"):
        out.append(("cloud photoemission without %s" % p, dict(cloud=dict(PHO, **{p: REMOVE}))))
    out.append(("cloud with unknown model", dict(cloud=dict(switch_model="foo"))))
    out.append(("cloud with gas_ion_flag 3", dict(cloud=dict(gas_ion_flag=3))))
    return out


CASES = cases()


def broken(i, ok):
    name, parts = CASES[i]
    cfg = base(cloud="cloud" in parts, two="two" in parts)
    kw = {}
    for k, d in parts.items():
        if k in ("same_name", "main_name"):
            if not ok:
                if k == "same_name":
                    cfg["clouds"]["other/ions.cloud"] = dict(cfg["clouds"]["ions.cloud"])
                    cfg["sim"]["additional_clouds_file_list"] = ["ions.cloud", "other/ions.cloud"]
                else:
                    cfg["sim"]["cloud_name"] = "ions"
            continue
        if k == "override":
            if not ok:
                kw[d] = "other.input"
            continue
        for p, v in d.items():
            if v == REMOVE:
                if not ok:
                    part(cfg, k).pop(p, None)
                elif k == "cloud" or p not in part(cfg, k):
                    full = dict(UNI, **EDE)
                    full.update(PHF)
                    full.update(PHO)
                    full.update(GAS)
                    full.update(bu.base_secem())
                    full.update(cfg["machine"])
                    if p in full:
                        part(cfg, k)[p] = full[p]
            else:
                part(cfg, k)[p] = v
    return name, cfg, kw


@check.sub("incompatible", st.integers(0, len(CASES) - 1), quick=300, thorough=len(CASES) * 4, shards=2)
@scratch
def incompatible(i):
    """Settings that a chosen option cannot work with are refused before anything is simulated."""
    name, cfg, kw = broken(i, False)
    e = attempt(cfg, **kw)
    if e is None:
        if "override" in CASES[i][1]:
            # accepted only if the named file is what was used: it does not exist
            require(False, "%s by a file that does not exist: accepted" % name)
        require(False, "%s: accepted" % name)
    require(not any(f.startswith("Pyecltest") for f in os.listdir(".")), "an output file was begun")
    if "without" in name and any(v == REMOVE for d in CASES[i][1].values() if isinstance(d, dict) for v in d.values()):
        with pye.TempDir():
            name, cfg, kw = broken(i, True)
            e = attempt(cfg, **kw)
            require(e is None, lambda: "%s: refused even with it (%r)" % (name, e))
    return "refused"

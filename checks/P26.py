"""Power-spectrum jobs: every varied universe through compute_pmm, with CLASS played by a stand-in and CAMB for real, and every fault of the solver."""
import io
import itertools
import json
import math
import re
import sys
from pathlib import Path
import numpy as np
from vlib.core import REPO

PROPERTY = "P26"
LEVEL = "model_checking"
RULE = ("all parameters x steps of flat and curved universes through the program with a stand-in for CLASS that records the universe it is asked "
        "for, and a fault at each of its calls; all universes of a grid through the CAMB ini writer, read back by CAMB; real CAMB for the fiducial "
        "universe and one step of each parameter, redshift grids of one to three groups; a state is (universe, grid, solver, fault)")
BOUNDS = {"quick": "9 parameters x 14 steps x 4 universes (CLASS), 324 universes x 4 ini files (CAMB ini), 8 universes by CAMB, faults at each solver call",
          "thorough": "the same with 16 universes by CAMB, both sides of each parameter, and 3 redshift groups"}
EPS = [0.00625, 0.0125, 0.01875, 0.025, 0.0375, 0.05, 0.1]
FID = {"h": 0.67, "w0": -1.0, "wa": 0.0, "OmDE": 0.68, "Omm": 0.32, "Omb": 0.05, "ns": 0.96, "sigma8": 0.816, "mnu": 0.06, "gamma": 0.55}
STEM = {"mnu": 7.0, "wa": 2.0}


def cases(tier):
    q = tier == "quick"
    for u in range(4):
        yield {"kind": "class", "u": u}
    for p in range(4):
        yield {"kind": "ini", "part": p}
    yield {"kind": "groups"}
    yield {"kind": "faults"}
    camb = [(0, "central", 0), (0, "Omm", 3), (1, "OmDE", -4), (0, "w0", -2), (0, "wa", 7), (0, "h", 5), (0, "mnu", 6), (0, "sigma8", -7), (4, "central", 0)]
    if not q:
        camb += [(0, "Omb", 1), (0, "ns", -6), (0, "gamma", 2), (2, "central", 0), (2, "Omm", -7), (3, "h", -1), (1, "Omm", 7), (2, "wa", -7)]
    for u, d, s in camb:
        yield {"kind": "camb", "u": u, "dvar": d, "step": s}
    yield {"kind": "camb", "u": 0, "dvar": "central", "step": 0, "off": 4e-5}
    yield {"kind": "many", "n": 151}
    if not q:
        yield {"kind": "many", "n": 301}


WORKERS = 8


def init():
    import os
    os.environ["OMP_NUM_THREADS"] = "1"


def run_case(case, ctx):
    with ctx.scratch() as d:
        globals()["case_" + case["kind"]](case, ctx, Path(d))


UNIVERSES = [dict(flat=True, free=set(FID) - {"OmDE"}), dict(flat=False, free=set(FID), vals={"OmDE": 0.7}),
             dict(flat=False, free=set(FID), vals={"OmDE": 0.6, "w0": -0.9, "wa": 0.2, "mnu": 0.12}), dict(flat=True, free=set(FID) - {"Omm"}, vals={"h": 0.7, "ns": 1.0}),
             dict(flat=True, free=set(FID) - {"OmDE"}, vals={"mnu": 0.005})]


def fiducials(u):
    return {**FID, **UNIVERSES[u].get("vals", {})}


def collection(u):
    from seyfert.cosmology.parameter import PhysicalParameter, PhysicalParametersCollection
    un = UNIVERSES[u]
    c = PhysicalParametersCollection(base_stem_disps=np.array(EPS), is_universe_flat=un["flat"])
    c.update({k: PhysicalParameter.createCosmologicalParameter(name=k, fiducial=v, is_free_parameter=k in un["free"], stem_factor=STEM.get(k, 1.0))
              for k, v in fiducials(u).items()})
    c.update({"bgcph0": PhysicalParameter.createNuisanceParameter(name="bgcph0", fiducial=1.1, is_free_parameter=True, probe="PhotometricGalaxy")})
    return c


def varied(u, dvar, step):
    """values of the universe of a variation"""
    p = dict(fiducials(u))
    if dvar in p:
        e = EPS[abs(step) - 1] * (1 if step > 0 else -1) * STEM.get(dvar, 1.0)
        p[dvar] += e * (p[dvar] if p[dvar] != 0 else 1.0)
        if UNIVERSES[u]["flat"] and dvar == "Omm":
            p["OmDE"] = 1 - p["Omm"]
        if UNIVERSES[u]["flat"] and dvar == "OmDE":
            p["Omm"] = 1 - p["OmDE"]
    return p


def valid(p):
    return p["w0"] < 1 and abs(p["wa"]) < 2


def config(code, z=(0.001, 2.5, 4), ini="light.ini", kmax=1.0, per=5, kmin=1e-3, nk=7):
    return {"redshift_grid": {"z_min": z[0], "z_max": z[1], "n_redshifts": z[2]},
            "boltzmann_codes_settings": {"code": code, "camb": {"k_max": kmax, "k_per_logint": per, "ini_filename": ini},
                                         "class": {"k_max": kmax, "k_min": kmin, "n_k": nk}}}


class FakeClass:
    """what the CLASS wrapper offers: spectra that depend on every parameter of the universe; counts its calls and fails at one of them"""
    calls = 0
    fail = None
    log = []

    def __init__(self):
        self.p, self.done = {}, False

    def tick(self, what):
        i = FakeClass.calls
        FakeClass.calls += 1
        if FakeClass.fail == i:
            raise RuntimeError(f"CLASS failed at {what}")

    def set(self, *a, **kw):
        self.tick("set")
        for d in a:
            self.p.update(d)
        self.p.update(kw)
        self.done = False
        return True

    def compute(self, *a, **kw):
        self.tick("compute")
        self.done = True
        FakeClass.log.append(dict(self.p))

    def _check(self, k, z):
        if not self.done:
            raise RuntimeError("compute() was not called")
        if z > float(self.p["z_max_pk"]) * (1 + 1e-9) or z < 0:
            raise RuntimeError(f"redshift {z} beyond {self.p['z_max_pk']}")
        if k > float(self.p["P_k_max_1/Mpc"]) * (1 + 1e-9):
            raise RuntimeError(f"k {k} beyond")

    def pk_lin(self, k, z):
        self.tick("pk_lin")
        self._check(k, z)
        return class_pk({n: float(self.p[n]) for n in CLASS_PARS}, k, z, False)

    def pk(self, k, z):
        self.tick("pk")
        self._check(k, z)
        if str(self.p.get("non linear", "none")).lower() not in ("halofit", "hmcode"):
            raise RuntimeError("no nonlinear spectrum asked for")
        return class_pk({n: float(self.p[n]) for n in CLASS_PARS}, k, z, True)

    def struct_cleanup(self, *a, **kw):
        pass

    def empty(self, *a, **kw):
        pass


CLASS_PARS = ["h", "Omega_b", "Omega_cdm", "Omega_k", "Omega_fld", "w0_fld", "wa_fld", "n_s", "sigma8", "m_ncdm"]


def class_pk(p, k, z, nonlinear):
    w = sum((i + 1) * 0.137 * p[n] for i, n in enumerate(CLASS_PARS))
    lin = 1e4 * p["sigma8"] ** 2 * (k / 0.05) ** p["n_s"] / (1 + (k / (0.02 + 0.01 * p["Omega_cdm"])) ** 2.4) / (1 + z) ** (1.5 + 0.2 * w) * (1 + 0.1 * w)
    lin *= 1 + 0.3 * p["Omega_k"] * z - 0.1 * p["m_ncdm"] * k / (1 + k) + 0.2 * p["Omega_fld"] * z / (1 + z)
    return lin * (1 + k * (1 + 0.1 * p["w0_fld"]) / (1 + z)) if nonlinear else lin


def class_pars(p):
    om_nu = p["mnu"] / (93.14 * p["h"] ** 2)
    return {"h": p["h"], "Omega_b": p["Omb"], "Omega_cdm": p["Omm"] - p["Omb"] - om_nu, "Omega_k": round(1 - p["Omm"] - p["OmDE"], 6),
            "Omega_fld": p["OmDE"], "w0_fld": p["w0"], "wa_fld": p["wa"], "n_s": p["ns"], "sigma8": p["sigma8"], "m_ncdm": p["mnu"]}


class Site:
    def __init__(self, d, u, cfg):
        from vlib.jobs import Shop
        self.shop = Shop(d / "shop")
        self.run = d / "run"
        self.run.mkdir()
        collection(u).writeJSON(self.run / "pars.json")
        (self.run / "input_files_dict.json").write_text(json.dumps({"params": "pars.json"}))
        (self.run / "pscfg.json").write_text(json.dumps(cfg))
        self.conf = d / "conf"
        self.conf.mkdir()

    def job(self, name, extra=None):
        w = self.run / "PowerSpectrum" / name
        w.mkdir(parents=True, exist_ok=True)
        err = io.StringIO()
        code = self.shop.call("compute_pmm", ["-rd", str(self.run), "-wd", str(w), "-lg", str(w / "log.txt"), "-mcfg", str(self.run / "pscfg.json")], str(w), err)
        return w, code, err.getvalue()


class patched:
    """the stand-in for CLASS in place, and the CAMB ini files looked for in the scratch directory"""

    def __init__(self, conf, fake=True):
        self.conf, self.fake = conf, fake

    def __enter__(self):
        import types
        from seyfert.utils import filesystem_utils as fsu
        from seyfert.cosmology import boltzmann_solver as bs
        self.saved = fsu.config_files_dir, getattr(bs, "Class", None), sys.modules.get("classy")
        fsu.config_files_dir = lambda: self.conf
        if self.fake:
            m = types.ModuleType("classy")
            m.Class = FakeClass
            sys.modules["classy"] = m
            bs.Class = FakeClass
        FakeClass.calls, FakeClass.fail, FakeClass.log = 0, None, []

    def __exit__(self, *a):
        from seyfert.utils import filesystem_utils as fsu
        from seyfert.cosmology import boltzmann_solver as bs
        fsu.config_files_dir = self.saved[0]
        if self.fake:
            if self.saved[1] is None:
                del bs.Class
            else:
                bs.Class = self.saved[1]
            if self.saved[2] is None:
                sys.modules.pop("classy", None)
            else:
                sys.modules["classy"] = self.saved[2]


def near(got, want, tol):
    got, want = np.asarray(got, float), np.asarray(want, float)
    return got.shape == want.shape and bool(np.all(np.abs(got - want) <= tol * np.maximum(np.abs(want), 1e-300)))


def job_name(dvar, step):
    return f"dvar_{dvar}_step_" + ("0" if step == 0 else f"{'p' if step > 0 else 'm'}_{abs(step)}")


def E(z, p):
    a = 1 + z
    return np.sqrt(p["Omm"] * a ** 3 + p["OmDE"] * a ** (3 * (1 + p["w0"] + p["wa"])) * np.exp(-3 * p["wa"] * z / a) + (1 - p["Omm"] - p["OmDE"]) * a * a)


NODES, WEIGHTS = np.polynomial.legendre.leggauss(64)


def distance(z, p):
    return np.array([np.sum(WEIGHTS * t / 2 / E(t / 2 * (NODES + 1), p)) for t in z])


def common(ctx, what, cosmo, p, u, z, code):
    """what the file of any universe holds besides the spectra"""
    got = {k: float(v.current_value) for k, v in cosmo.params.items()}
    ctx.check(set(got) == set(p) and all(abs(got[k] - v) <= 1e-14 * max(1, abs(v)) for k, v in p.items()), "parameters", f"{what}: {got} instead of {p}")
    fid = {k: float(v.fiducial) for k, v in cosmo.params.items()}
    ctx.check(fid == fiducials(u), "fiducials", f"{what}: {fid}")
    ctx.check(bool(cosmo.is_flat) == UNIVERSES[u]["flat"], "flat", what)
    ps = cosmo.power_spectrum
    ctx.check(near(cosmo.z_grid, z, 1e-14) and near(ps.z_grid, z, 1e-14), "z_grid", f"{what}: {cosmo.z_grid}")
    ctx.check(near(cosmo.E_z, E(z, p), 1e-12) and near(cosmo.r_tilde_z, distance(z, p), 1e-7), "background", what)
    ctx.check(near(cosmo.growth_factor_z, np.sqrt(ps.lin_p_mm_z_k[:, 0] / ps.lin_p_mm_z_k[0, 0]), 1e-12), "growth", what)
    ctx.check(ps.boltzmann_code == code, "code", f"{what}: {ps.boltzmann_code}")


def case_class(case, ctx, scratch):
    from seyfert.cosmology.cosmology import Cosmology
    u = case["u"]
    zspec = [(0.001, 2.5, 4), (0.0, 3.0, 2), (0.5, 0.9, 3), (0.001, 4.0, 6)][u]
    cfg = config("CLASS", z=zspec, kmax=(1.0, 10.0, 0.3, 50.0)[u], kmin=(1e-3, 1e-5, 1e-2, 1e-4)[u], nk=(7, 3, 12, 2)[u])
    s = Site(scratch, u, cfg)
    z = np.array([zspec[0] + (zspec[1] - zspec[0]) * i / (zspec[2] - 1) for i in range(zspec[2])])
    cl = cfg["boltzmann_codes_settings"]["class"]
    k = np.array([cl["k_min"] * (cl["k_max"] / cl["k_min"]) ** (i / (cl["n_k"] - 1)) for i in range(cl["n_k"])])
    jobs = [("central", 0)] + [(d, st) for d in FID for st in list(range(-7, 0)) + list(range(1, 8)) if d in UNIVERSES[u]["free"]]
    with patched(s.conf):
        for d, st in jobs:
            what = f"universe {u}, {d} {st}"
            p = varied(u, d, st)
            ctx.state((u, d, st))
            ctx.step()
            w, code, err = s.job(job_name(d, st))
            if not ctx.check(code == 0 and (w / "p_mm.h5").is_file(), "ran", f"{what}: exit {code} {err[-400:]}"):
                continue
            with ctx.guard("read", what):
                c = Cosmology.fromHDF5(w / "p_mm.h5")
                common(ctx, what, c, p, u, z, "CLASS")
                cp = class_pars(p)
                ps = c.power_spectrum
                ctx.check(near(ps.k_grid, k, 1e-12), "k_grid", f"{what}: {ps.k_grid}")
                for nl, got in ((False, ps.lin_p_mm_z_k), (True, ps.nonlin_p_mm_z_k)):
                    want = np.array([[class_pk(cp, kk, zz, nl) for kk in k] for zz in z])
                    ctx.check(near(got, want, 1e-6 if cp["Omega_k"] else 1e-9), "nonlinear" if nl else "linear", f"{what}: {got[0]} instead of {want[0]}; asked for {FakeClass.log[-1:]}")
        # parameters that do not vary are refused, and leave nothing
        for d in ("OmDE" if u == 0 else "Omm" if u == 3 else "nothing", "absent"):
            w, code, err = s.job(job_name(d, 1))
            ctx.step()
            ctx.check(code != 0 and not (w / "p_mm.h5").exists(), "refused", f"universe {u}: {d} accepted")
    ctx.trace()


def case_faults(case, ctx, scratch):
    """the solver fails at each of its calls: the job fails, the file is absent or as it was"""
    s = Site(scratch, 0, config("CLASS", z=(0.0, 1.0, 2), nk=3))
    with patched(s.conf):
        w, code, err = s.job("dvar_central_step_0")
        n = FakeClass.calls
        ctx.check(code == 0, "ran", err[-300:])
        good = (w / "p_mm.h5").read_bytes()
        for i in range(n):
            for before in (False, True):
                ctx.state((i, before))
                ctx.step()
                name = f"dvar_h_step_p_{1 + before}"
                w = s.run / "PowerSpectrum" / name
                w.mkdir(parents=True, exist_ok=True)
                f = w / "p_mm.h5"
                f.unlink(missing_ok=True)
                if before:
                    f.write_bytes(good)
                FakeClass.calls, FakeClass.fail = 0, i
                w, code, err = s.job(name)
                FakeClass.fail = None
                ctx.check(code != 0, "failure_hidden", f"call {i} failed, exit 0")
                ctx.check((f.read_bytes() == good) if before else not f.exists(), "torn", f"call {i} failed: p_mm.h5 {'changed' if before else 'there'}")
    ctx.trace()


INI = (REPO / "seyfert/data/test_data/test_camb_ini.ini")
LIGHT = dict(get_scalar_cls="F", do_lensing="F", accuracy_boost="1", l_accuracy_boost="1", transfer_high_precision="F", transfer_kmax="1",
             transfer_k_per_logint="5", transfer_num_redshifts="1")
OVERRIDES = ["hubble", "w", "wa", "scalar_spectral_index", "omch2", "ombh2", "omnuh2", "omk"]


def basis(p):
    h2 = p["h"] ** 2
    return {"hubble": 100 * p["h"], "w": p["w0"], "wa": p["wa"], "scalar_spectral_index": p["ns"], "omch2": p["Omm"] * h2 - p["Omb"] * h2 - p["mnu"] / 93.14,
            "ombh2": p["Omb"] * h2, "omnuh2": p["mnu"] / 93.14, "omk": 1 - p["Omm"] - p["OmDE"]}


def entries(text):
    out = {}
    for line in text.splitlines():
        line = line.strip()
        if line and not line.startswith("#") and "=" in line:
            k, v = line.split("=", 1)
            out[k.strip()] = v.strip()
    return out


def light(text):
    for k, v in LIGHT.items():
        text = re.sub(rf"(?m)^{k} *=.*$", f"{k} = {v}", text)
    return text


def ini_texts():
    t = light(INI.read_text())
    lines = t.splitlines()
    yield t
    yield "\n".join("  " + l.replace(" = ", "=") + "  " for l in lines) + "\n"
    yield "# comment = 3\n\n" + "\n".join(l.replace(" = ", "   =   ") + "\n#w = 5\n" for l in lines)
    yield "\n".join(lines[::-1])
    yield "\n".join(l for l in lines if l.split("=")[0].strip() not in OVERRIDES)


def case_ini(case, ctx, scratch):
    import camb
    from seyfert.config.main_config import PowerSpectrumConfig
    from seyfert.cosmology.boltzmann_solver import CAMBBoltzmannSolver
    from seyfert.cosmology.parameter import PhysicalParameter
    combos = list(itertools.product((0.5, 0.67, 0.8), (0.2, 0.32, 0.45), (0.68, 0.7, 0.0), (0.02, 0.05), (0.0, 0.06, 0.3), ((0.96, -1.0, 0.0), (1.02, -0.85, 0.31))))
    for i, (h, omm, omde, omb, mnu, (ns, w0, wa)) in enumerate(combos):
        if i % 4 != case["part"]:
            continue
        p = {**FID, "h": h, "Omm": omm, "OmDE": omde or 1 - omm, "Omb": omb, "mnu": mnu, "ns": ns, "w0": w0, "wa": wa}
        for t, text in enumerate(ini_texts()):
            conf = scratch / f"c{i}_{t}"
            conf.mkdir()
            (conf / "my.ini").write_text(text)
            (conf / "cfg.json").write_text(json.dumps(config("CAMB", ini="my.ini")))
            ctx.state((i, t))
            ctx.step()
            what = f"{p} ini {t}"
            with patched(conf, fake=False), ctx.guard("ini", what):
                pars = {k: PhysicalParameter.createCosmologicalParameter(name=k, fiducial=FID[k], current_value=v, is_free_parameter=True) for k, v in p.items()}
                work = conf / "work"
                work.mkdir()
                s = CAMBBoltzmannSolver(work, PowerSpectrumConfig(json_input=conf / "cfg.json"), pars)
                s.writeUpdatedCAMBIniFile()
                got = entries((work / "my.ini").read_text())
                want = {**entries(text), **basis(p)}
                ctx.check(set(got) == set(want), "entries", f"{what}: {set(got) ^ set(want)}")
                for k, v in want.items():
                    if k in got:
                        ok = abs(float(got[k]) - v) <= 1e-14 * max(abs(v), 0.01) if k in OVERRIDES else got[k] == v
                        ctx.check(ok, "entry", f"{what}: {k} = {got[k]} instead of {v}")
                ctx.check((conf / "my.ini").read_text() == text, "reference_kept", what)
                if t == i % 5 and i % 3 == 0:
                    c = camb.read_ini(str(work / "my.ini"))
                    b = basis(p)
                    vals = {"hubble": c.H0, "ombh2": c.ombh2, "omch2": c.omch2, "omnuh2": c.omnuh2, "omk": c.omk, "w": c.DarkEnergy.w, "wa": c.DarkEnergy.wa,
                            "scalar_spectral_index": c.InitPower.ns}
                    for k, v in vals.items():
                        ctx.check(abs(v - b[k]) <= 1e-12 * max(1, abs(v)), "camb_reads", f"{what}: {k} {v} instead of {b[k]}")
    ctx.trace()


def case_groups(case, ctx, scratch):
    """groups of at most 150 redshifts, as few as possible"""
    from seyfert.cosmology.boltzmann_solver import CAMBBoltzmannSolver
    for n in range(1, 1501):
        ctx.state(n)
        ctx.step()
        g = CAMBBoltzmannSolver.computeCAMBRedshiftGroupsNumber(n)
        ctx.check(g == -(-n // 150), "groups", f"{n} redshifts in {g} groups")
        ctx.check(max(len(a) for a in np.array_split(np.arange(n), g)) <= 150, "too_many", f"{n} redshifts in {g} groups")
    ctx.trace()


def camb_reference(p, z, kmax, per, text, scratch, nonlinear=True):
    import camb
    d = {**entries(text), **{k: repr(float(v)) for k, v in basis(p).items()}}
    f = scratch / "reference.ini"

    def read():
        f.write_text("".join(f"{k} = {v}\n" for k, v in d.items()))
        return camb.read_ini(str(f))
    c = read()
    c.set_matter_power(redshifts=[0.0], kmax=0.5)
    c.NonLinear = camb.model.NonLinear_none
    s8 = camb.get_results(c).get_sigma8_0()
    d["scalar_amp"] = repr(float(d["scalar_amp"]) * (p["sigma8"] / s8) ** 2)
    c = read()
    c.set_matter_power(redshifts=list(z), kmax=kmax, k_per_logint=per, nonlinear=True, accurate_massive_neutrino_transfers=True)
    r = camb.get_results(c)
    k, zz, lin = r.get_linear_matter_power_spectrum(hubble_units=False, k_hunit=False)
    _, _, non = r.get_nonlinear_matter_power_spectrum(hubble_units=False, k_hunit=False)
    trans = r.get_matter_transfer_data().transfer_data[camb.model.Transfer_tot - 1, :, 0]
    assert np.allclose(zz, z)
    return k, lin, non, trans, float(d["scalar_amp"])


def case_camb(case, ctx, scratch):
    from seyfert.cosmology.cosmology import Cosmology
    u, d, st = case["u"], case["dvar"], case["step"]
    p = varied(u, d, st)
    zspec = [(0.001, 2.5, 3), (0.0, 1.0, 2), (0.1, 3.0, 4)][(abs(st) + u) % 3]
    s = Site(scratch, u, config("CAMB", z=zspec, per=5, kmax=1.0))
    text = light(INI.read_text())
    z = np.array([zspec[0] + (zspec[1] - zspec[0]) * i / (zspec[2] - 1) for i in range(zspec[2])])
    what = f"CAMB, universe {u}, {d} {st}"
    if "off" in case:
        # an amplitude that is almost the one of this universe already
        what += f", amplitude off by {case['off']}"
        As = camb_reference(p, z, 1.0, 5, text, scratch)[-1]
        text = "".join(f"{k} = {v}\n" for k, v in {**entries(text), "scalar_amp": repr(As * (1 + case["off"]))}.items())
    (s.conf / "light.ini").write_text(text)
    ctx.state((u, d, st, case.get("off")))
    ctx.step()
    with patched(s.conf, fake=False):
        w, code, err = s.job(job_name(d, st))
    if not ctx.check(code == 0 and (w / "p_mm.h5").is_file(), "camb_ran", f"{what}: exit {code} {err[-400:]}"):
        return
    k, lin, non, trans, As = camb_reference(p, z, 1.0, 5, text, scratch)
    with ctx.guard("camb_read", what):
        c = Cosmology.fromHDF5(w / "p_mm.h5")
        common(ctx, what, c, p, u, z, "CAMB")
        ps = c.power_spectrum
        ctx.check(near(ps.k_grid, k, 1e-6), "camb_k", f"{what}: {ps.k_grid[:3]} instead of {k[:3]}")
        ctx.check(near(ps.lin_p_mm_z_k, lin, 1e-5), "camb_linear", f"{what}: {ps.lin_p_mm_z_k[:, :2]} instead of {lin[:, :2]}")
        ctx.check(near(ps.nonlin_p_mm_z_k, non, 1e-5), "camb_nonlinear", f"{what}: {ps.nonlin_p_mm_z_k[:, -2:]} instead of {non[:, -2:]}")
        ctx.check(near(ps.transfer_function, trans, 1e-5), "camb_transfer", f"{what}: {ps.transfer_function[:2]} instead of {trans[:2]}")
        ini = [f for f in w.iterdir() if f.suffix == ".ini"]
        ctx.check(len(ini) == 1 and abs(float(entries(ini[0].read_text())["scalar_amp"]) / As - 1) < 1e-8, "sigma8", f"{what}: {ini}")
    ctx.trace()


def case_many(case, ctx, scratch):
    """more redshifts than CAMB takes at once: the same spectra, in order"""
    from seyfert.cosmology.cosmology import Cosmology
    n = case["n"]
    s = Site(scratch, 0, config("CAMB", z=(0.0, 3.0, n), per=5, kmax=1.0))
    text = light(INI.read_text())
    (s.conf / "light.ini").write_text(text)
    z = np.linspace(0.0, 3.0, n)
    ctx.state(n)
    ctx.step()
    with patched(s.conf, fake=False):
        w, code, err = s.job("dvar_central_step_0")
    if not ctx.check(code == 0, "many_ran", f"{n} redshifts: {err[-300:]}"):
        return
    pick = sorted({0, 1, n // 2 - 1, n // 2, n // 2 + 1, n // 3, 2 * n // 3, n - 2, n - 1})
    k, lin, non, trans, As = camb_reference(varied(0, "central", 0), z[pick], 1.0, 5, text, scratch)
    with ctx.guard("many_read", str(n)):
        ps = Cosmology.fromHDF5(w / "p_mm.h5").power_spectrum
        ctx.check(ps.lin_p_mm_z_k.shape == (n, len(k)) and ps.nonlin_p_mm_z_k.shape == (n, len(k)), "many_shape", f"{n}: {ps.lin_p_mm_z_k.shape}")
        ctx.check(near(ps.z_grid, z, 1e-14), "many_grid", str(n))
        ctx.check(near(ps.lin_p_mm_z_k[pick], lin, 1e-4) and near(ps.nonlin_p_mm_z_k[pick], non, 1e-3), "many", f"{n}: {ps.lin_p_mm_z_k[pick, 0]} instead of {lin[:, 0]}")
        ctx.check(bool(np.all(np.diff(ps.lin_p_mm_z_k[:, 5]) < 0)), "many_order", f"{n}")
    ctx.trace()

"""A small complete forecast: input data, configuration and power spectra files for the real code to run on."""
import json
from pathlib import Path
import numpy as np

COSMO = [("h", 0.67, True, 1.0), ("w0", -1.0, False, 1.0), ("wa", 0.0, False, 1.0), ("OmDE", 0.68, False, 1.0),
         ("Omm", 0.32, True, 1.0), ("Omb", 0.05, False, 1.0), ("ns", 0.96, False, 1.0), ("sigma8", 0.816, False, 1.0),
         ("mnu", 0.06, False, 7.0), ("gamma", 0.55, False, 1.0)]
LONG = {"GCph": "PhotometricGalaxy", "GCsp": "SpectroscopicGalaxy", "WL": "Lensing"}
RESPONSE = {"c_b": 1.0, "c_o": 1.0, "f_out": 0.1, "sigma_b": 0.05, "sigma_o": 0.05, "z_b": 0.0, "z_o": 0.1}


def power(k, z, p):
    """positive, smooth, dependent on every parameter"""
    d = (1 + z) ** (-0.8 - 0.2 * p["Omm"] + 0.05 * p["w0"] + 0.02 * p["wa"])
    k0 = 0.05 * p["Omm"] * p["h"] / 0.2 * (1 + p["mnu"])
    t = 1.0 / (1.0 + (k / k0) ** 2 * (1 + 0.3 * p["Omb"])) ** 0.9
    return 2e4 * p["sigma8"] ** 2 * np.outer(d ** 2, (k / 0.05) ** p["ns"] * t)


class World:
    def __init__(self, root, probes=("WL", "GCph", "GCsp"), nbins=None, disps=(0.01, 0.02), free=("h", "Omm"),
                 nz=33, niz=True, edges=None, free_nuis=("aIA",), free_bias=("GCph", "GCsp"), ia=True, offdiag=False,
                 sp_reduced=False, f_sky=0.36, ells=None, flat=True, cosmo=None, bias_model="piecewise",
                 extra_survey=None, z_max=2.4, cl_method="simpson", wl_method="simpson"):
        self.root = Path(root)
        self.probes = list(probes)
        self.nbins = nbins or {"WL": 2, "GCph": 2, "GCsp": 1}
        self.disps, self.free, self.niz, self.flat = list(disps), set(free), niz, flat
        self.cosmo = cosmo or COSMO
        self.z = np.linspace(0.01, z_max, nz)
        self.k = np.logspace(-5, 2, 50)
        self.free_nuis, self.free_bias = set(free_nuis), set(free_bias)
        self.ia, self.offdiag, self.sp_reduced, self.f_sky = ia, offdiag, sp_reduced, f_sky
        self.spline = (3, 3, 0)   # orders in z and log k, smoothing
        self.bias_model = bias_model
        self.cl_method, self.wl_method = cl_method, wl_method
        self.ells = ells or {"WL": [(10, 2), (20, 4), (40, 8), (80, 16)], "GCph": [(10, 2), (20, 4), (40, 8)],
                             "GCsp": [(10, 2), (20, 4), (40, 8)]}
        self.edges = edges or {p: np.linspace(0.1 if p != "GCsp" else 0.9, 2.3 if p != "GCsp" else 1.8, self.nbins[p] + 1)
                               for p in self.nbins}
        self.data = self.root / "input_data"
        self.cfg = self.root / "cfg"
        self.extra_survey = extra_survey or {}

    # ---- input files
    def write(self):
        from seyfert.cosmology.bias import Bias
        from seyfert.cosmology.redshift_density import RedshiftDensity
        self.data.mkdir(parents=True, exist_ok=True)
        self.cfg.mkdir(exist_ok=True)
        for p in self.probes:
            d = RedshiftDensity(probe=LONG[p])
            self.fill_density(d, p)
            d.saveToHDF5(self.data / f"dndz_{p}.h5")
            np.savetxt(self.data / f"ells_{p}.txt", np.array(self.ells[p], float))
            if p != "WL":
                b = Bias(probe=LONG[p], z_bin_edges=np.array(self.edges[p], float))
                b.model_name = self.bias_model
                b.nuisance_parameters = self.bias_values(p)
                b.additional_parameters = {}
                b.saveToHDF5(self.data / f"bias_{p}.h5")
        self.write_configs()
        return self

    def bias_values(self, p):
        tag = "gcph" if p == "GCph" else "gcsp"
        return {f"bg{tag}{i}": 1.1 + 0.2 * i + (0.05 if p == "GCsp" else 0) for i in range(self.nbins[p])}

    def raw_density(self, p, z):
        if p == "GCsp":
            return 5e2 * np.exp(-((z - 1.3) / 0.5) ** 2)
        return 3e4 * z ** 2 * np.exp(-(z / 0.65) ** 1.5)

    def fill_density(self, d, p):
        e = np.array(self.edges[p], float)
        d.z_bin_edges = e
        d.catalog_f_sky = 0.25 if p == "GCsp" else 0.35
        niz = self.niz[p] if isinstance(self.niz, dict) else self.niz
        d.has_niz_from_input = bool(niz)
        zin = np.linspace(0.001, 2.5, 61) if niz else np.linspace(0.001, 2.5, 31)
        d.input_z_domain = zin
        if niz:
            n = np.zeros((self.nbins[p], len(zin)))
            for i in range(self.nbins[p]):
                c, w = 0.5 * (e[i] + e[i + 1]), 0.6 * (e[i + 1] - e[i])
                n[i] = np.exp(-((zin - c) / w) ** 2) * (1 + 0.1 * i)
                n[i] /= np.sum(n[i]) * (zin[1] - zin[0])
            d.input_n_iz = n
            d.dN_dOmega_bins = np.array([(3e7 if p != "GCsp" else 1e6) * (1 + 0.4 * i) for i in range(self.nbins[p])])
        else:
            d.input_dN_dz_dOmega = self.raw_density(p, zin)
            d.instrument_response = dict(RESPONSE)

    def config_dict(self):
        pars = [dict(name=n, fiducial=f, current_value=f, kind="CosmologicalParameter", is_free_parameter=n in self.free,
                     stem_factor=s, derivative_method="SteM", units="None") for n, f, _, s in self.cosmo]
        probes = {}
        for p in self.probes + [x for x in ("WL", "GCph", "GCsp", "V") if x not in self.probes]:
            e = dict(long_name=LONG.get(p, "Void"), presence_flag=p in self.probes, ell_external_filename=f"ells_{p}.txt",
                     l_min=10, l_max=100, ell_log_selection=True, log_l_number=5, density_file=f"dndz_{p}.h5",
                     extra_nuisance_parameters=[], specific_settings={})
            if p == "WL":
                e["specific_settings"] = {"include_IA": self.ia}
                e["extra_nuisance_parameters"] = [
                    dict(name=n, fiducial=f, current_value=f, kind="NuisanceParameter", is_free_parameter=n in self.free_nuis,
                         stem_factor=1.0, derivative_method="SteM", units="None", probe="Lensing")
                    for n, f in (("aIA", 1.72), ("cIA", 0.0134), ("etaIA", -0.41), ("betaIA", 2.17))]
            else:
                e.update(bias_file=f"bias_{p}.h5", bias_derivative_method="SteM", marginalize_bias_flag=p in self.free_bias)
                if p == "GCsp":
                    e["specific_settings"] = {"compute_gcsp_cl_offdiag": self.offdiag}
                if p == "V":
                    e["specific_settings"] = {"void_kcut_invMpc": 0.35, "void_kcut_width_invMpc": 0.1}
            probes[p] = e
        return {"metadata": {"author": "x", "creation_date": "2021-06-23T12:38:58.034512", "version": "1"},
                "synthetic_opts": {"scenario": "optimistic", "n_sp_bins": 4, "shot_noise_sp_reduced": self.sp_reduced,
                                   "gcph_minus_gcsp": False},
                "survey": {"f_sky": self.f_sky, "shot_noise_file": None, **self.extra_survey},
                "cosmology": {"model_name": "CPL", "flat": self.flat, "parameters": pars},
                "probes": probes,
                "derivative_settings": {"base_stem_disps": self.disps}}

    def write_configs(self):
        (self.cfg / "forecast.json").write_text(json.dumps(self.config_dict(), indent=1))
        (self.cfg / "angular.json").write_text(json.dumps({
            "cl_integration_settings": {"lensing_efficiency": self.wl_method, "cl": self.cl_method},
            "limber_pmm_spline_settings": dict(zip(("kx", "ky", "s"), self.spline))}))
        (self.cfg / "fisher.json").write_text(json.dumps({"shot_noise_phsp_xc_factor": 0.0, "fisher_formula": "second_order",
                                                           "cl_derivatives": {}}))
        (self.cfg / "derivative.json").write_text(json.dumps({"dvar": "h", "angular_dir": "None"}))
        (self.cfg / "pmm.json").write_text(json.dumps({
            "redshift_grid": {"z_min": float(self.z[0]), "z_max": float(self.z[-1]), "n_redshifts": len(self.z)},
            "boltzmann_codes_settings": {"code": "CLASS", "camb": {}, "class": {}}}))

    def forecast_config(self, load=True):
        from seyfert.config.forecast_config import ForecastConfig
        return ForecastConfig(input_file=self.cfg / "forecast.json", input_data_dir=self.data, load_phys_params=load)

    def angular_config(self):
        from seyfert.config.main_config import AngularConfig
        return AngularConfig(json_input=self.cfg / "angular.json")

    # ---- power spectra
    def cosmology(self, values):
        """a Cosmology object built directly from parameter values (current values)"""
        from seyfert.cosmology.cosmology import Cosmology
        from seyfert.cosmology.parameter import PhysicalParameter
        from seyfert.cosmology.power_spectrum import PowerSpectrum
        pars = {}
        for n, f, _, s in self.cosmo:
            pars[n] = PhysicalParameter.createCosmologicalParameter(name=n, fiducial=f, current_value=values[n],
                                                                    is_free_parameter=n in self.free, stem_factor=s)
        c = Cosmology(params=pars, flat=self.flat, model_name="CPL", z_grid=self.z.copy())
        ps = PowerSpectrum()
        ps.z_grid, ps.k_grid = self.z.copy(), self.k.copy()
        ps.lin_p_mm_z_k = power(self.k, self.z, values)
        ps.nonlin_p_mm_z_k = power(self.k, self.z, values) * (1 + 0.5 * (self.k / (0.3 + self.k)) ** 2)
        c.power_spectrum = ps
        return c

    def fiducial(self):
        return {n: f for n, f, _, _ in self.cosmo}

    def varied(self, dvar, step):
        """parameter values of a step of the stencil, from first principles"""
        v = self.fiducial()
        if dvar in v and step:
            d = sorted(self.disps)[abs(step) - 1] * (1 if step > 0 else -1)
            s = {n: st for n, _, _, st in self.cosmo}[dvar]
            f = v[dvar]
            v[dvar] = f + d * s * (f if f != 0 else 1)
            if self.flat and dvar == "Omm":
                v["OmDE"] = 1 - v["Omm"]
            if self.flat and dvar == "OmDE":
                v["Omm"] = 1 - v["OmDE"]
        return v

    def steps(self):
        n = len(self.disps)
        return [s for s in range(-n, n + 1) if s]

    def write_pmm(self, pmm_dir, dvars=None):
        pmm_dir = Path(pmm_dir)
        todo = [("central", 0)]
        for d in (dvars if dvars is not None else [n for n, *_ in self.cosmo if n in self.free]):
            todo += [(d, s) for s in self.steps()]
        for d, s in todo:
            name = f"dvar_{d}_step_" + ("0" if s == 0 else f"{'p' if s > 0 else 'm'}_{abs(s)}")
            out = pmm_dir / name
            out.mkdir(parents=True, exist_ok=True)
            c = self.cosmology(self.varied(d, s))
            c.evaluateOverRedshiftGrid()
            c.saveToHDF5(out / "p_mm.h5")

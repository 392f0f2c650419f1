"""Equality of computed objects: every pair of objects that differ in every combination of parts of their content."""
import copy
import itertools
import numpy as np

PROPERTY = "P25"
LEVEL = "model_checking"
RULE = ("for every class, all objects obtained from a base by every single and every pair of changes of the parts of its content (another value "
        "at the first or last place, fewer or more entries, a length of one, missing), all pairs of them compared in both orders; "
        "a state is (class, change)")
BOUNDS = {"quick": "15 classes; single changes of every part all against all, pairs of changes against the base and each of their parts",
          "thorough": "the same with pairs of changes all against all"}
KINDS = ["parameter", "parameters", "pmm", "cosmology", "density", "bias", "weight", "kernel", "cl", "cls", "datavector", "delta", "fisher", "probe", "forecast"]


def cases(tier):
    for k in KINDS:
        for p in range(1 if tier == "quick" else 16):
            yield {"kind": k, "parts": 1 if tier == "quick" else 16, "part": p}


def arr(*shape):
    return np.arange(1.0, 1.0 + np.prod(shape)).reshape(shape) / 7


def array_changes(none=True, integer=False):
    def first(a):
        a = a.copy()
        a.flat[0] += 0.5
        return a

    def last(a):
        a = a.copy()
        a.flat[-1] = np.nextafter(a.flat[-1], 10)
        return a
    out = {"first": first, "last": last, "shorter": lambda a: a[:-1].copy(), "longer": lambda a: np.concatenate([a, a[-1:]]),
           "one": lambda a: a[:1].copy(), "constant": lambda a: np.full_like(a, 0.25), "one_constant": lambda a: np.full_like(a[:1], 0.25)}
    if none:
        out["none"] = lambda a: None
    return out


def setter(name):
    return lambda o, v: setattr(o, name, v)


def parts_of(attrs, none=True):
    out = {}
    for a in attrs:
        for c, f in array_changes(none).items():
            out[(a, c)] = (lambda o, a=a, f=f: setattr(o, a, f(getattr(o, a))))
    return out


def to(attr, value):
    return lambda o: setattr(o, attr, copy.deepcopy(value))


def make_parameter(name="w0", fid=-1.0, cur=None, kind="CosmologicalParameter", probe=None):
    from seyfert.cosmology.parameter import PhysicalParameter
    return PhysicalParameter(name=name, fiducial=fid, current_value=cur, kind=kind, probe=probe, is_free_parameter=True)


def make_pmm():
    from seyfert.cosmology.power_spectrum import PowerSpectrum
    p = PowerSpectrum()
    p.z_grid, p.k_grid, p.lin_p_mm_z_k, p.nonlin_p_mm_z_k, p.transfer_function = arr(4), arr(5), arr(4, 5), 2 * arr(4, 5), 3 * arr(5)
    return p


def make_cosmology():
    from seyfert.cosmology.cosmology import Cosmology
    vals = {"h": 0.67, "w0": -0.9, "wa": 0.2, "Omm": 0.32, "OmDE": 0.68, "ns": 0.96}
    c = Cosmology(params={k: make_parameter(k, v) for k, v in vals.items()}, flat=True, z_grid=arr(4))
    c.power_spectrum = make_pmm()
    return c


def make_density():
    from seyfert.cosmology.redshift_density import RedshiftDensity
    d = RedshiftDensity(probe="Lensing")
    d.z_grid, d.norm_density_iz, d.input_z_domain, d.dN_dOmega_bins, d.z_bin_edges = arr(6), arr(3, 6), 2 * arr(5), arr(3), arr(4)
    d.input_dN_dz_dOmega, d.has_niz_from_input, d.catalog_f_sky = arr(5), False, 0.3
    d.input_n_iz = arr(3, 5)
    d.instrument_response = {"f_out": 0.1, "sigma_b": 0.05}
    return d


def make_bias():
    from seyfert.cosmology.bias import Bias
    b = Bias(probe="PhotometricGalaxy", z_bin_edges=arr(4))
    b.nuisance_parameters, b.additional_parameters = {"b1": 1.0, "b2": 2.0, "b3": 3.0}, {"r": 2.0}
    b.z_grid, b.b_i_z, b.model_name = arr(6), arr(3, 6), "piecewise"
    return b


def make_weight(probe="Lensing"):
    from seyfert.cosmology import weight_functions as wfs
    w = wfs.weight_function_for_probe(probe)
    w.z_grid, w.w_bin_z = arr(6), arr(3, 6)
    return w


def make_kernel():
    from seyfert.cosmology.kernel_functions import KernelFunction
    k = KernelFunction(weight1=make_weight("Lensing"), weight2=make_weight("PhotometricGalaxy"), cosmology=make_cosmology())
    k.k_ijz, k.z_grid = arr(3, 3, 6), arr(6)
    return k


def make_cl(probe1="Lensing", probe2="PhotometricGalaxy"):
    from seyfert.cosmology.c_ells import AngularCoefficient
    c = AngularCoefficient(probe1=probe1, probe2=probe2)
    c.c_lij, c.l_bin_centers, c.l_bin_widths = arr(5, 3, 3), arr(5), 2 * arr(5)
    return c


def make_cls():
    from seyfert.cosmology.c_ells import AngularCoefficientsCollector
    c = AngularCoefficientsCollector()
    for i, key in enumerate(("Lensing_Lensing", "Lensing_PhotometricGalaxy", "PhotometricGalaxy_PhotometricGalaxy")):
        c.cl_dict[key] = make_cl(*key.split("_"))
        c.cl_dict[key].c_lij *= i + 1
    return c


def make_datavector():
    from seyfert.fisher.datavector import ClDataVector
    return ClDataVector([("WL", "WL"), ("WL", "GCph"), ("GCph", "GCph")])


def make_delta():
    from seyfert.fisher.delta_cl import DeltaCl
    d = DeltaCl()
    d.delta_c_lij, d.noise_lij, d.l_bin_centers, d.l_bin_widths = arr(5, 3, 3), 3 * arr(5, 3, 3), arr(5), 2 * arr(5)
    return d


def make_fisher(labels=("Omm", "w0", "b1"), cosmo=("Omm", "w0"), nuis=("b1",), name="F", rev=False):
    import pandas as pd
    from seyfert.fisher.fisher_matrix import FisherMatrix
    vals = {("Omm", "Omm"): 5.0, ("w0", "w0"): 6.0, ("b1", "b1"): 7.0, ("ns", "ns"): 7.0, ("Omm", "w0"): 1.0, ("Omm", "b1"): 0.5, ("b1", "w0"): 0.25}
    m = [[vals.get((a, b), vals.get((b, a), 0.125)) for b in labels] for a in labels]
    df = pd.DataFrame(m, index=labels, columns=labels)
    if rev:
        df = df.iloc[::-1, ::-1]
    return FisherMatrix.from_dataframe(df, name=name, cosmological_parameters=cosmo, nuisance_parameters=nuis)


def make_probe(name="PhotometricGalaxy"):
    from pathlib import Path
    from seyfert.config.probe_config import ProbeConfig
    p = ProbeConfig(name)
    p.l_bin_centers, p.l_bin_widths = arr(5), 2 * arr(5)
    p.density_init_file, p.bias_init_file = Path("/data/density.h5"), Path("/data/bias.h5")
    p.marginalize_bias = True
    p.specific_settings = {"a": 1, "b": "x"}
    p.nuisance_parameters = {"b1": make_parameter("b1", 1.2, kind="NuisanceParameter", probe=name),
                             "b2": make_parameter("b2", 1.3, kind="NuisanceParameter", probe=name)}
    return p


class Conf(dict):
    __getattr__ = dict.__getitem__


def make_forecast():
    from seyfert.config.forecast_config import ForecastConfig
    from seyfert.cosmology.parameter import PhysicalParametersCollection
    f = ForecastConfig()
    f.probe_configs = {n: make_probe(n) for n in ("Lensing", "PhotometricGalaxy")}
    f.probes_combinations = list(itertools.combinations_with_replacement(f.probe_configs, 2))
    f.phys_pars = PhysicalParametersCollection()
    f.phys_pars.update({k: make_parameter(k, v) for k, v in {"Omm": 0.3, "w0": -1.0}.items()})
    f.json_config = Conf(f_sky=0.35, cosmology={"flat": True})
    return f


def d_drop(o, attr, key):
    getattr(o, attr).pop(key)


def changes(kind):
    """name of a part of the content and of its change -> what does it; parts named 'same' leave the content as it is"""
    from pathlib import Path
    if kind == "parameter":
        return {("name", "a"): to("name", "wa"), ("fid", "a"): to("fiducial", -1.1), ("fid", "b"): to("fiducial", float(np.nextafter(-1, 0))),
                ("cur", "a"): to("current_value", -0.9), ("kind", "a"): to("kind", "NuisanceParameter")}
    if kind == "parameters":
        def reorder(o):
            items = dict(list(o.items())[::-1])
            for k in list(o.keys()):
                o.base_dict.pop(k)
            o.update(items)
        return {("w0", "cur"): lambda o: setattr(o["w0"], "current_value", -0.5), ("w0", "gone"): lambda o: o.base_dict.pop("w0"),
                ("Omm", "fid"): lambda o: setattr(o["Omm"], "fiducial", 0.31), ("new", "new"): lambda o: o.update({"ns": make_parameter("ns", 0.96)}),
                ("same", "order"): reorder}
    if kind == "pmm":
        return parts_of(["z_grid", "k_grid", "lin_p_mm_z_k", "nonlin_p_mm_z_k", "transfer_function"])
    if kind == "cosmology":
        out = {("params", "cur"): lambda o: setattr(o.params["h"], "current_value", 0.7), ("params", "fid"): lambda o: setattr(o.params["h"], "fiducial", 0.7),
               ("params", "fewer"): lambda o: o.params.pop("ns"), ("model", "a"): to("model_name", "LCDM"), ("flat", "a"): to("is_flat", False),
               ("power_spectrum", "none"): to("power_spectrum", None)}
        for (a, c), f in parts_of(["z_grid", "lin_p_mm_z_k"], none=False).items():
            if c in ("first", "shorter", "longer"):
                out[("power_spectrum", a + c)] = lambda o, f=f: f(o.power_spectrum) if o.power_spectrum is not None else None
        return out
    if kind == "density":
        out = parts_of(["z_grid", "norm_density_iz", "input_z_domain", "dN_dOmega_bins", "z_bin_edges", "input_dN_dz_dOmega", "input_n_iz"])
        out.update({("probe", "a"): to("probe", "Void"), ("f_sky", "a"): to("catalog_f_sky", 0.4), ("from_input", "a"): to("has_niz_from_input", True),
                    ("response", "a"): to("instrument_response", {"f_out": 0.2, "sigma_b": 0.05}), ("response", "b"): to("instrument_response", {"f_out": 0.1}),
                    ("response", "c"): to("instrument_response", {})})
        return out
    if kind == "bias":
        out = parts_of(["z_grid", "b_i_z", "z_bin_edges"])
        out.update({("probe", "a"): to("probe", "Void"), ("model", "a"): to("model_name", "constant"),
                    ("nuis", "a"): to("nuisance_parameters", {"b1": 1.0, "b2": 2.0, "b3": 3.1}), ("nuis", "b"): to("nuisance_parameters", {"b1": 1.0}),
                    ("nuis", "c"): to("nuisance_parameters", None), ("add", "a"): to("additional_parameters", {"r": 3.0}), ("add", "b"): to("additional_parameters", {})})
        return out
    if kind == "weight":
        return parts_of(["z_grid", "w_bin_z"])
    if kind == "kernel":
        out = parts_of(["k_ijz", "z_grid"])
        for w in ("weight1", "weight2"):
            for (a, c), f in parts_of(["w_bin_z"], none=False).items():
                if c in ("first", "shorter", "longer"):
                    out[(w, c)] = lambda o, f=f, w=w: f(getattr(o, w)) if getattr(o, w) is not None else None
            out[(w, "none")] = to(w, None)
        out.update({("probe1", "a"): to("probe1", "Void"), ("probe2", "a"): to("probe2", "Void"), ("cosmo", "none"): to("cosmology", None),
                    ("cosmo", "h"): lambda o: setattr(o.cosmology.params["h"], "current_value", 0.7) if o.cosmology is not None else None})
        return out
    if kind == "cl":
        return parts_of(["c_lij", "l_bin_centers", "l_bin_widths"])
    if kind == "cls":
        def reordered(o):
            o.cl_dict = dict(list(o.cl_dict.items())[::-1])
        out = {("same", "order"): reordered}
        for n, key in enumerate(("Lensing_Lensing", "Lensing_PhotometricGalaxy", "PhotometricGalaxy_PhotometricGalaxy")):
            out[(key, "gone")] = lambda o, key=key: o.cl_dict.pop(key)
            for (a, c), f in parts_of(["c_lij", "l_bin_centers", "l_bin_widths"], none=False).items():
                if c in ("first", "last", "shorter", "longer"):
                    out[(key, a + c)] = lambda o, f=f, key=key: f(o.cl_dict[key])
        out[("new", "new")] = lambda o: o.cl_dict.update({"SpectroscopicGalaxy_Lensing": make_cl("SpectroscopicGalaxy", "Lensing")})
        out[("new", "other")] = lambda o: o.cl_dict.update({"SpectroscopicGalaxy_SpectroscopicGalaxy": make_cl("SpectroscopicGalaxy", "SpectroscopicGalaxy")})
        return out
    if kind == "datavector":
        def entry(i, how):
            def do(o):
                o.entries = [how(e) if j == i else e for j, e in enumerate(o.entries)]
            return do
        from seyfert.utils.shortcuts import ClKey
        out = {("same", "long"): lambda o: o.transformEntriesTo("long"), ("same", "short"): lambda o: o.transformEntriesTo("short")}
        for i in range(3):
            out[(i, "other")] = entry(i, lambda e: ClKey("Lensing_SpectroscopicGalaxy"))
            out[(i, "void")] = entry(i, lambda e: ClKey(("V", "V")))
        out[(1, "reversed")] = entry(1, lambda e: e.getReverseKey())
        out[(2, "gone")] = lambda o: setattr(o, "entries", o.entries[:2])
        out[("more", "more")] = lambda o: setattr(o, "entries", o.entries + [ClKey("spsp")])
        out[("more", "two")] = lambda o: setattr(o, "entries", o.entries + [ClKey("spsp"), ClKey("spwl")])
        return out
    if kind == "delta":
        return parts_of(["delta_c_lij", "noise_lij", "l_bin_centers", "l_bin_widths"])
    if kind == "fisher":
        def swap(o):
            o.matrix = o.matrix.iloc[::-1, ::-1]

        def rename(o, a="b1", b="b9"):
            o.matrix = o.matrix.rename(index={a: b}, columns={a: b})

        def drop(o):
            o.matrix = o.matrix.drop(index='w0', columns='w0')

        def bump(o):
            o.matrix = o.matrix.copy()
            o.matrix.loc['Omm', 'Omm'] = np.nextafter(o.matrix.loc['Omm', 'Omm'], 10)

        def names(o):
            o.name = "G"

        def pars(o):
            o.nuisance_parameters.add("b7")
        return {("same", "order"): swap, ("matrix", "labels"): rename, ("matrix", "fewer"): drop, ("matrix", "value"): bump, ("name", "a"): names, ("params", "a"): pars}
    if kind == "probe":
        out = parts_of(["l_bin_centers", "l_bin_widths"], none=False)
        out.update({("density", "a"): to("density_init_file", Path("/data/other.h5")), ("bias", "a"): to("bias_init_file", Path("/data/other.h5")),
                    ("same", "density"): lambda o: setattr(o, "density_init_file", Path("/elsewhere") / o.density_init_file.name), ("same", "bias"): lambda o: setattr(o, "bias_init_file", Path("/elsewhere") / o.bias_init_file.name),
                    ("marg", "a"): to("marginalize_bias", False), ("settings", "a"): to("specific_settings", {"a": 2, "b": "x"}), ("settings", "b"): to("specific_settings", {}),
                    ("nuis", "a"): lambda o: setattr(o.nuisance_parameters["b2"], "fiducial", 1.4), ("nuis", "b"): to("nuisance_parameters", {}),
                    ("name", "a"): lambda o: setattr(o, "name", make_probe("SpectroscopicGalaxy").name)})
        return out
    if kind == "forecast":
        def ells(o):
            p = o.probe_configs["Lensing"]
            p.l_bin_centers = p.l_bin_centers[:-1]

        def drop(o):
            o.probe_configs.pop("PhotometricGalaxy", None)
        return {("phys", "a"): lambda o: setattr(o.phys_pars["w0"], "fiducial", -0.8), ("phys", "none"): to("phys_pars", None),
                ("flat", "a"): lambda o: o.json_config.update(cosmology={"flat": False}), ("f_sky", "a"): lambda o: o.json_config.update(f_sky=0.36),
                ("probes", "ells"): ells, ("probes", "fewer"): drop, ("combs", "a"): lambda o: setattr(o, "probes_combinations", o.probes_combinations[:-1]),
                ("probes", "marg"): lambda o: setattr(o.probe_configs["Lensing"], "marginalize_bias", False)}


MAKE = {"parameter": make_parameter, "pmm": make_pmm, "cosmology": make_cosmology, "density": make_density, "bias": make_bias, "weight": make_weight,
        "kernel": make_kernel, "cl": make_cl, "cls": make_cls, "datavector": make_datavector, "delta": make_delta, "fisher": make_fisher, "probe": make_probe, "forecast": make_forecast}


def make_parameters():
    from seyfert.cosmology.parameter import PhysicalParametersCollection
    c = PhysicalParametersCollection()
    c.update({k: make_parameter(k, v) for k, v in {"Omm": 0.3, "w0": -1.0, "h": 0.7}.items()})
    return c


MAKE["parameters"] = make_parameters


def run_case(case, ctx):
    kind = case["kind"]
    ch = changes(kind)

    def build(keys):
        o = MAKE[kind]()
        for k in keys:
            ch[k](o)
        return o
    content = lambda keys: frozenset(k for k in keys if k[0] != "same")
    singles = [()] + [(k,) for k in ch]
    doubles = [(a, b) for a, b in itertools.combinations(ch, 2) if a[0] != b[0]]
    objs = {}
    for keys in singles + doubles:
        with ctx.guard("build", str(keys)):
            objs[keys] = build(keys)
        ctx.state((kind, keys))

    def compare(a, b):
        want = content(a) == content(b)
        x, y = objs[a], objs[b]
        if a == b:
            y = build(b)
        for p, q in ((x, y), (y, x)):
            ctx.step()
            with ctx.guard("compare", f"{kind}: {a} with {b}"):
                got = p == q
                ctx.check(bool(got) == want and isinstance(bool(got), bool), "equal" if want else "different", f"{kind}: {a} with {b} compare {got}")
    if case["parts"] > 1:
        for i, a in enumerate(singles + doubles):
            if i % case["parts"] == case["part"]:
                for b in (singles + doubles)[i:]:
                    compare(a, b)
    else:
        for a, b in itertools.combinations_with_replacement(singles, 2):
            compare(a, b)
        for d in doubles:
            for o in (d, (), (d[0],), (d[1],)):
                compare(d, o)
    ctx.trace()

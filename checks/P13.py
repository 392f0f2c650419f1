"""HDF5 persistence: every history of saves into the groups of one file, and of opening it in every mode."""
import gc
import itertools
import os
import numpy as np

PROPERTY = "P13"
LEVEL = "model_checking"
RULE = ("all histories of saving objects into the groups of one file, everything stored being read back after every step; and all "
        "histories of opening a file in every mode at every group; a state is (what is stored under each group)")
BOUNDS = {"quick": "15 kinds of object, 3 groups, 2 variants: 3 saves of one kind (2 for the large kinds), ordered pairs of kinds; 4 openings of "
                   "7 modes x 3 groups",
          "thorough": "4 saves of one kind (3 for the large kinds), ordered triples of kinds; 5 openings"}
CHUNK = 1
ROOTS = ["/", "a", "b/c"]
KINDS = ["density", "density_conv", "bias", "pmm", "pmm_tf", "cosmology", "cosmology_bare", "weight_wl", "weight_gc", "kernel", "cl",
         "cl_bare", "cls", "delta_block", "delta"]
HEAVY = ("cls", "delta", "cl", "weight_wl", "weight_gc", "cosmology")
LONG = {"GCph": "PhotometricGalaxy", "GCsp": "SpectroscopicGalaxy", "WL": "Lensing"}
MODES = ["r", "r+", "w", "w-", "x", "a", "q"]


def cases(tier):
    full = tier == "thorough"
    for k in KINDS:
        for v, r in itertools.product((0, 1), ROOTS):
            heavy = k in HEAVY
            yield {"kind": k, "first": [v, r], "depth": (3 if heavy else 4) if full else (2 if heavy else 3)}
    for k in KINDS:
        yield {"mixed": k, "depth": 3 if full else 2}
    for m in MODES:
        for r in ROOTS:
            yield {"modes": [m, r], "depth": 5 if full else 4}


# ---- objects
_W = {}


def source(v, root):
    if v not in _W:
        from vlib.world import World
        from seyfert.main import cl_core
        probes = ("WL", "GCph", "GCsp") if v == 0 else ("GCsp", "WL")
        w = World(root / f"src{v}", probes=probes, nbins={"WL": 1 + v, "GCph": 2, "GCsp": 1 + v}, nz=9, offdiag=True,
                  ells={p: [(10 + v / 3, 2 + v / 7), (20 + v, 4)] for p in ("WL", "GCph", "GCsp")},
                  cosmo=None, z_max=2.4 - 0.1 * v).write()
        fc = w.forecast_config()
        dens = cl_core.compute_densities(fc.probe_configs, w.z)
        vals = w.fiducial()
        vals["h"] += 0.01 * v
        cosmo = w.cosmology(vals)
        cls = cl_core.compute_cls(cosmo, fc.phys_pars, dens, fc, w.angular_config())
        _W[v] = (w, fc, dens, cosmo, cls)
    return _W[v]


def make(kind, v, root):
    from seyfert.cosmology.c_ells import AngularCoefficient
    from seyfert.cosmology.cosmology import Cosmology
    from seyfert.cosmology.redshift_density import RedshiftDensity
    from seyfert.fisher.delta_cl import DeltaClCollection
    import copy
    w, fc, dens, cosmo, cls = source(v, root)
    if kind == "density":
        return dens[LONG["WL"]]
    if kind == "density_conv":
        d = RedshiftDensity(probe=LONG["GCsp"])
        w2 = copy.copy(w)
        w2.niz = False
        w2.fill_density(d, "GCsp")
        d.instrument_response = {k: x + 0.01 * v for k, x in d.instrument_response.items()}
        if v:
            d.setUp()
            d.evaluate(w.z)
            d.evaluateSurfaceDensity()
        return d
    if kind == "bias":
        return cls.weight_dict[LONG["GCsp"]].bias
    if kind == "pmm":
        return cosmo.power_spectrum
    if kind == "pmm_tf":
        p = copy.copy(cosmo.power_spectrum)
        p.transfer_function = np.linspace(1, 2 + v, 50)
        p.boltzmann_code = ["CAMB", "CLASS"][v]
        return p
    if kind == "cosmology":
        return cosmo
    if kind == "cosmology_bare":
        return Cosmology(params=cosmo.params, flat=not v, model_name=["CPL", "LCDM"][v], z_grid=cosmo.z_grid)
    if kind == "weight_wl":
        return cls.weight_dict[LONG["WL"]]
    if kind == "weight_gc":
        return cls.weight_dict[LONG["GCsp"]]
    if kind == "kernel":
        return cls.cl_dict[f"{LONG['WL']}_{LONG['GCph']}" if v == 0 else f"{LONG['GCsp']}_{LONG['WL']}"].kernel
    if kind == "cl":
        return cls.cl_dict[f"{LONG['WL']}_{LONG['GCsp']}" if v == 0 else f"{LONG['GCsp']}_{LONG['WL']}"]
    if kind == "cl_bare":
        src = cls.cl_dict[f"{LONG['WL']}_{LONG['GCsp']}" if v == 0 else f"{LONG['GCsp']}_{LONG['WL']}"]
        c = AngularCoefficient(probe1=src.probe1, probe2=src.probe2)
        c.c_lij, c.l_bin_centers, c.l_bin_widths = src.c_lij + 1, src.l_bin_centers, src.l_bin_widths
        return c
    if kind == "cls":
        return cls
    if kind in ("delta", "delta_block"):
        d = DeltaClCollection(fcfg=fc)
        d.loadFiducialCls(cls)
        d.evaluateSingleBlocks()
        d.buildXCBlocks()
        return d if kind == "delta" else d.single_blocks[f"{LONG['WL']}_{LONG['WL']}"]
    raise KeyError(kind)


def norm(x):
    if isinstance(x, np.ndarray):
        return ("array", x.shape, x.astype(float).tobytes() if x.dtype.kind in "fiub" else str(x.tolist()))
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, float, np.integer, np.floating)):
        return float(x)
    if isinstance(x, bytes):
        return ("bytes", x)
    if isinstance(x, dict):
        return {k: norm(v) for k, v in x.items()}
    return x


def get(o, names):
    return {n: norm(getattr(o, n)) for n in names}


def dump(kind, o):
    """everything a user reads from the object"""
    if kind.startswith("density"):
        d = get(o, ["probe", "z_grid", "norm_density_iz", "input_z_domain", "dN_dOmega_bins", "z_bin_edges", "has_niz_from_input",
                    "input_dN_dz_dOmega", "input_n_iz", "catalog_f_sky"])
        return {**d, "response": norm(o.instrument_response) if not o.has_niz_from_input else None}
    if kind == "bias":
        return get(o, ["probe", "model_name", "z_bin_edges", "additional_parameters", "nuisance_parameters", "z_grid", "b_i_z"])
    if kind.startswith("pmm"):
        return get(o, ["z_grid", "k_grid", "lin_p_mm_z_k", "nonlin_p_mm_z_k", "transfer_function", "boltzmann_code"])
    if kind.startswith("cosmology"):
        d = get(o, ["z_grid", "dimensionless_hubble_array", "dimensionless_comoving_distance_array", "growth_factor_z", "model_name",
                    "is_flat"])
        d["params"] = {n: norm({k: x for k, x in p.to_dict().items()}) for n, p in o.params.items()}
        d["pmm"] = dump("pmm", o.power_spectrum) if o.power_spectrum is not None else None
        return d
    if kind.startswith("weight"):
        d = get(o, ["probe", "z_grid", "w_bin_z"])
        d["density"] = dump("density", o.density)
        d["bias"] = dump("bias", o.bias) if o.bias is not None else None
        return d
    if kind == "kernel":
        return get(o, ["probe1", "probe2", "z_grid", "k_ijz"])
    if kind in ("cl", "cl_bare"):
        d = get(o, ["probe1", "probe2", "c_lij", "l_bin_centers", "l_bin_widths"])
        if o.kernel is not None:
            d["kernel"] = dump("kernel", o.kernel)
            d["w1"], d["w2"] = dump("weight", o.weight1), dump("weight", o.weight2)
        return d
    if kind == "cls":
        return {"z_grid": norm(o.z_grid), "cls": {k: dump("cl", c) for k, c in o.cl_dict.items()},
                "weights": {k: dump("weight", x) for k, x in o.weight_dict.items()}}
    if kind == "delta_block":
        return get(o, ["probe_1", "probe_2", "c_lij", "noise_lij", "delta_c_lij", "inv_delta_c_lij", "l_bin_centers", "l_bin_widths"])
    if kind == "delta":
        return {"entries": {k: dump("delta_block", x) for k, x in o.items()},
                "blocks": {k: dump("delta_block", x) for k, x in o.single_blocks.items()}}
    raise KeyError(kind)


def classes(kind):
    from seyfert.cosmology import bias, c_ells, cosmology, kernel_functions, power_spectrum, redshift_density, weight_functions
    from seyfert.fisher import delta_cl
    return {"density": redshift_density.RedshiftDensity, "density_conv": redshift_density.RedshiftDensity, "bias": bias.Bias,
            "pmm": power_spectrum.PowerSpectrum, "pmm_tf": power_spectrum.PowerSpectrum, "cosmology": cosmology.Cosmology,
            "cosmology_bare": cosmology.Cosmology, "weight_wl": weight_functions.LensingWeightFunction,
            "weight_gc": weight_functions.SpectroscopicGalaxyWeightFunction, "kernel": kernel_functions.KernelFunction,
            "cl": c_ells.AngularCoefficient, "cl_bare": c_ells.AngularCoefficient, "cls": c_ells.AngularCoefficientsCollector,
            "delta_block": delta_cl.DeltaCl, "delta": delta_cl.DeltaClCollection}[kind]


def load(kind, obj, f, root, how):
    cls = classes(kind)
    kw = {"load_power_spectrum": False} if kind == "cosmology_bare" else {}
    if how == "new":
        if kind in ("cl", "cl_bare"):
            return cls.fromHDF5(f, obj.probe1, obj.probe2, root=root)
        if kind == "delta_block":
            return cls.fromHDF5(f, obj.name, root=root)
        return cls.fromHDF5(f, root=root, **kw)
    x = cls(probe1=obj.probe1, probe2=obj.probe2) if kind in ("cl", "cl_bare") else cls()
    if kind in ("cl", "cl_bare"):
        x.loadFromHDF5(f, root=root)
    else:
        x.loadFromHDF5(f, root=root, **kw)
    return x


def verify(ctx, f, stored, seq, last):
    for kind, v, obj, want, root in stored.values():
        for how in ("new", "into") if last else ("new",):
            back = load(kind, obj, f, root, how)
            got = dump(kind, back)
            if got != want:
                ctx.fail("not-faithful", f"{kind} variant {v} at {root} after {seq} ({how}): differs in {diff(got, want)}")
            ctx.count("assertions")


def diff(a, b, path=""):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b)):
            if k not in a or k not in b:
                return f"{path}.{k} {'missing' if k not in a else 'added'}"
            if a[k] != b[k]:
                return diff(a[k], b[k], f"{path}.{k}")
    if isinstance(a, tuple) and a[0] == "array":
        return f"{path}: array values"
    return f"{path}: {a!r} expected {b!r}"[:200]


def history(ctx, d, seq, src, n):
    """seq of (kind, variant, root); a second save at the same root is refused and changes nothing"""
    f = d / f"h{n}.h5"
    stored = {}
    for i, (kind, v, root) in enumerate(seq):
        obj = make(kind, v, src)
        want = dump(kind, obj)
        if kind in ("cl", "cl_bare"):      # named by its pair below the group
            slot = (root, obj.probe1, obj.probe2)
        else:
            slot = root
        if slot in stored:
            try:
                obj.saveToHDF5(f, root=root)
                refused = False
            except Exception as e:
                refused = True
                del e
            gc.collect()
            ctx.check(refused, "overwritten", f"{seq[:i + 1]}: second save at {root} accepted")
        else:
            obj.saveToHDF5(f, root=root)
            ctx.check(dump(kind, obj) == want, "object-altered", f"{kind} {v} altered by saving")
            stored[slot] = (kind, v, obj, want, root)
        ctx.step()
        verify(ctx, f, stored, seq[:i + 1], i == len(seq) - 1)
        ctx.state(tuple(sorted((r, k, x) for k, x, _, _, r in stored.values())))
    ctx.trace()
    f.unlink()


def run_case(case, ctx):
    from pathlib import Path
    src = Path(ctx.scratch_root) / f"src_{os.getpid()}"
    src.mkdir(exist_ok=True)
    with ctx.scratch() as d:
        if "modes" in case:
            return run_modes(case, ctx, d)
        if "kind" in case:
            k = case["kind"]
            opts = list(itertools.product((0, 1), ROOTS))
            for n, tail in enumerate(itertools.product(opts, repeat=case["depth"] - 1)):
                seq = [(k, *case["first"])] + [(k, *t) for t in tail]
                if k == "cl" and len({(s[1], s[2]) for s in seq}) != len({s[2] for s in seq}):
                    continue       # spectra beside each other share their weights: those of one run
                if any(seq[j][2] in [s[2] for s in seq[:j]] for j in range(len(seq) - 1)):
                    continue       # refusals only as the last step (they change nothing)
                history(ctx, d, seq, src, n)
                if len(ctx.failures) > 3:
                    return
        else:
            a = case["mixed"]
            n = 0
            for others in itertools.product(KINDS, repeat=case["depth"] - 1):
                for roots in itertools.permutations(ROOTS, case["depth"]):
                    if n % 6 != (KINDS.index(a) + KINDS.index(others[0])) % 6 and case["depth"] == 2 and "cl" not in a + others[0]:
                        n += 1        # one placement of each ordered pair, all of them where spectra share weights
                        continue
                    if case["depth"] == 3 and (n % 6 or sum(k in HEAVY for k in (a,) + others) > 1):
                        n += 1
                        continue
                    history(ctx, d, [(k, n % 2, r) for k, r in zip((a,) + others, roots)], src, n)
                    n += 1
                    if len(ctx.failures) > 3:
                        return
        ctx.note({"case": case})


# ---- opening modes
def run_modes(case, ctx, d):
    from seyfert.file_io.hdf5_io import AbstractH5FileIO, H5FileModeError

    class IO(AbstractH5FileIO):
        def writeToObject(self, obj):
            super().writeToObject(obj)
            self.populateObject(obj)

        def writeObjectToFile(self, obj):
            pass

    # breadth first over the logical contents of the file (groups and what each holds), from the bytes of a representative
    front = [((), None, None, {}, None)]
    seen = set()
    for level in range(case["depth"]):
        nxt = []
        for seq0, content, groups0, data0, created0 in front:
            for n, (mode, root) in enumerate(itertools.product(MODES, ROOTS)):
                if level == 0 and [mode, root] != case["modes"]:
                    continue
                f = d / "m.h5"
                if content is not None:
                    f.write_bytes(content)
                seq = seq0 + ((mode, root),)
                res = one_opening(ctx, IO, H5FileModeError, f, seq, groups0 and set(groups0), dict(data0), created0)
                ctx.step()
                if f.exists():
                    after = f.read_bytes()
                    f.unlink()
                else:
                    after = None
                if res is None:
                    if len(ctx.failures) > 3:
                        return
                    continue
                groups, data, created = res
                key = (str(groups and sorted(groups)), str(sorted((r, x) for r, x in data)))
                ctx.state(("modes", key))
                if key not in seen:
                    seen.add(key)
                    nxt.append((seq, after, groups, data, created))
                ctx.trace()
        front = nxt


def one_opening(ctx, IO, H5FileModeError, f, seq, groups, data, created):
    mode, root = seq[-1]
    what = f"{seq}"
    io = IO()
    before = f.read_bytes() if f.exists() else None
    updated = None
    if before is not None:
        import h5py
        with h5py.File(f, "r") as h:
            updated = h.attrs.get("LastUpdate")
    err = expected = None
    if mode == "q":
        expected = (ValueError,)
    elif mode in ("r", "r+") and groups is None:
        expected = (OSError,)
    elif mode in ("w", "w-", "x") and groups is not None:
        expected = (OSError,)
    elif mode == "r" and root not in groups:
        expected = (H5FileModeError,)
    try:
        io.openFile(f, mode=mode, root=root)
    except Exception as e:
        err = type(e)
    if expected:
        del io
        if err is H5FileModeError:
            gc.collect()
        ctx.check(err is not None and issubclass(err, expected), "mode-refusal", f"{what}: got {err}, expected {expected[0].__name__}")
        ctx.check((f.read_bytes() if f.exists() else None) == before, "mode-altered", what)
        return (groups, data, created) if err is not None else None
    if not ctx.check(err is None, "mode-accepted", f"{what}: {err}"):
        return None
    if mode != "r":
        groups = (groups or set()) | {"/"}
        if root != "/":
            groups |= {"/".join(root.split("/")[:j + 1]) for j in range(len(root.split("/")))}
        name = f"x{sum(r == root for r, _ in data)}"
        value = float(len(seq)) + ROOTS.index(root) / 8
        io.createDataset(name=name, data=value)
        data[root, name] = value
    if root == "/" and mode != "r":
        if before is None:
            created = io.attrs.get("CreationDate")
            ctx.check(created is not None and "CodeVersion" in io.attrs, "creation-metadata", what)
        ctx.check("LastUpdate" in io.attrs and io.attrs.get("CreationDate") == created, "update-metadata", what)
        ctx.check(io.attrs.get("LastUpdate") != updated, "update-date", what)
    found = {k: float(v[()]) for k, v in io.root.items() if hasattr(v, "shape")}
    want = {k: v for (r, k), v in data.items() if r == root}
    ctx.check(found == want, "mode-content", f"{what}: {found} expected {want}")
    io.closeFile()
    if mode == "r":
        ctx.check(f.read_bytes() == before, "read-altered", what)
    return groups, data, created

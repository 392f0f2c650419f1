"""Noisy spectra: every history of evaluations, shot noise files and round trips, for every choice of probes."""
import itertools
import numpy as np

PROPERTY = "P09"
LEVEL = "model_checking"
RULE = ("all histories of evaluate / load or write shot noise / save-and-reload / build block matrices up to the depth bound, "
        "for each set of probes, kind of density and noise option; a state is (world, noise in force, sky fraction evaluated "
        "with, reloaded or not); after each step every spectrum, inverse and block matrix is compared with the definition")
BOUNDS = {"quick": "8 worlds, 8 operations, depth 3 (2 where the densities are convolved, which is slow) and 5 longer histories",
          "thorough": "8 worlds, 8 operations, depth 4 (3) and 5 longer histories"}
LONG = {"GCph": "PhotometricGalaxy", "GCsp": "SpectroscopicGalaxy", "WL": "Lensing"}
WORLDS = [
    dict(probes=("WL", "GCph", "GCsp"), niz=True, nb=(2, 2, 1)),
    dict(probes=("GCsp", "WL", "GCph"), niz=False, nb=(2, 3, 2), red=True),
    dict(probes=("GCph", "GCsp"), niz=False, nb=(1, 2, 3), red=True),
    dict(probes=("GCph", "GCsp"), niz=False, nb=(1, 2, 2), red=False),
    dict(probes=("GCsp", "GCph", "WL"), niz=True, nb=(1, 2, 3)),
    dict(probes=("WL", "GCsp"), niz=True, nb=(3, 2, 2)),
    dict(probes=("WL",), niz=False, nb=(2, 2, 2)),
    dict(probes=("GCsp", "GCph"), niz={"GCph": False, "GCsp": False}, nb=(2, 1, 1), red=True),
]
OPS = ["eval", "eval_f", "loadA", "loadB", "write_load", "save_load", "xc", "eval_g"]
FS = {"eval": None, "eval_f": 0.2, "eval_g": 1.0}
LONG_SEQS = [("eval", "xc", "eval_f", "xc"), ("eval", "xc", "loadA", "eval", "xc"), ("loadB", "eval_f", "xc", "loadA", "eval_g", "xc"),
             ("eval", "write_load", "loadB", "eval", "write_load", "xc", "eval_g", "xc", "save_load", "eval_f"),
             ("loadA", "eval", "save_load", "eval_f", "loadB", "eval_g", "write_load")]
ELLS = {"WL": [(10, 2), (20, 4), (40, 8), (80, 16)], "GCph": [(10, 2), (20, 4), (40, 8)], "GCsp": [(20, 4), (40, 8), (80, 16)]}


def cases(tier):
    for w in range(len(WORLDS)):
        for o in range(len(OPS)):
            yield {"world": w, "first": o, "depth": (3 if tier == "quick" else 4) - (WORLDS[w]["niz"] is not True)}
        yield {"world": w, "long": 1}


def spline_int(x, y, a, b):
    from scipy.interpolate import InterpolatedUnivariateSpline
    return float(InterpolatedUnivariateSpline(x, y, k=3).integral(a, b))


_W = {}


def build(wi, root):
    """world wi (once per process), with the reference noise"""
    if wi in _W:
        return _W[wi]
    from vlib.world import World
    from seyfert.cosmology.c_ells import AngularCoefficient, AngularCoefficientsCollector
    from seyfert.cosmology.redshift_density import RedshiftDensity
    spec = WORLDS[wi]
    nb = dict(zip(("WL", "GCph", "GCsp"), spec["nb"]))
    w = World(root, probes=spec["probes"], nbins=nb, niz=spec["niz"], sp_reduced=spec.get("red", False), f_sky=0.36,
              ells=ELLS).write()
    fc = w.forecast_config()
    noise, tot = {}, {}
    for p in w.probes:
        d = RedshiftDensity()
        w.fill_density(d, p)
        if d.has_niz_from_input:
            dens = d.dN_dOmega_bins
        else:
            dens = np.array([spline_int(d.input_z_domain, d.input_dN_dz_dOmega, a, b)
                             for a, b in zip(d.z_bin_edges[:-1], d.z_bin_edges[1:])])
            tot[p] = spline_int(d.input_z_domain, d.input_dN_dz_dOmega, d.input_z_domain[0], d.input_z_domain[-1]) \
                * 4 * np.pi * d.catalog_f_sky
        noise[p] = (0.09 if p == "WL" else 1.0) / dens
    if spec.get("red"):
        noise["GCsp"] = noise["GCsp"] * (tot["GCsp"] / tot["GCph"])
    coll = AngularCoefficientsCollector(forecast_config=fc)
    ref = {}
    for k, (a, b) in enumerate(itertools.combinations_with_replacement(w.probes, 2)):
        c = AngularCoefficient(probe1=LONG[a], probe2=LONG[b])
        common = [e for e in ELLS[a] if e in ELLS[b]]
        c.l_bin_centers = np.array([e[0] for e in common], float)
        c.l_bin_widths = np.array([e[1] for e in common], float)
        arr = np.zeros((len(common), nb[a], nb[b]))
        for l, i, j in np.ndindex(*arr.shape):
            arr[l, i, j] = 1e-9 * (((l + 2 * (i + j if a == b else i + 3 * j) + k) % 7) + 1) + (2e-8 if a == b and i == j else 0)
        c.c_lij = arr
        coll.cl_dict[f"{LONG[a]}_{LONG[b]}"] = c
        ref[a, b] = (c.l_bin_centers.copy(), c.l_bin_widths.copy(), arr.copy())
    files = {}
    import h5py
    for tag, f in (("A", 1.0), ("B", 3.0)):
        files[tag] = root / f"shot_{tag}.h5"
        with h5py.File(files[tag], "w") as hf:
            for k, (a, b) in enumerate(ref):
                m = 1e-9 * f * (1 + (np.arange(nb[a] * nb[b]).reshape(nb[a], nb[b]) + k) % 5)
                m = m + (np.eye(nb[a]) * 1e-8 if a == b else 0)
                if a == b:
                    m = (m + m.T) / 2
                    m = m - 2 * (m - np.diag(np.diag(m))) * (tag == "A")
                    if tag == "B" and a == w.probes[-1]:
                        m = np.zeros(m.shape)   # no noise at all
                elif tag == "A":
                    m = -m
                hf.create_dataset(f"{LONG[a]}_{LONG[b]}", data=m)
    own = {}
    for a, b in ref:
        own[a, b] = np.diag(noise[a]) if a == b else np.zeros((nb[a], nb[b]))
    ext = {t: {} for t in files}
    for t in files:
        with h5py.File(files[t]) as hf:
            for a, b in ref:
                ext[t][a, b] = hf[f"{LONG[a]}_{LONG[b]}"][()]
    _W[wi] = (w, fc, coll, ref, own, ext, files)
    return _W[wi]


class Model:
    """noise in force at the last evaluation, sky fraction of it"""

    def __init__(self):
        self.noise = None      # None: not yet computed; "own", "A", "B"
        self.evald = None      # (noise, f_sky)
        self.loaded = False


def close(a, b, rel=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= rel * np.abs(b) + 1e-30))


def run_case(case, ctx):
    from pathlib import Path
    from seyfert.fisher.delta_cl import DeltaClCollection
    wi = case["world"]
    root = Path(ctx.scratch_root) / f"world{wi}_{__import__('os').getpid()}"
    w, fc, cls, ref, own, ext, files = build(wi, root)
    if "long" in case:
        seqs = LONG_SEQS
    else:
        seqs = ((OPS[case["first"]],) + t for t in itertools.product(OPS, repeat=case["depth"] - 1))
    with ctx.scratch() as d:
        for seq in seqs:
            run_seq(seq, w, fc, cls, ref, own, ext, files, d, ctx, DeltaClCollection, wi)
            if len(ctx.failures) > 4:
                return


def expected(ref, noises, m, fc, pair):
    ell, wid, c = ref[pair]
    nz, f = m.evald
    n = noises[nz][pair]
    return np.sqrt(1.0 / (wid * f))[:, None, None] * (c + n[None])


def run_seq(seq, w, fc, cls, ref, own, ext, files, d, ctx, Coll, wi):
    noises = {"own": own, **ext}
    x = Coll(fcfg=fc)
    x.loadFiducialCls(cls)
    m = Model()
    tol = 1e-9 if not (w.sp_reduced or not all(w.niz.values() if isinstance(w.niz, dict) else [w.niz])) else 1e-4
    for n, op in enumerate(seq):
        # ---- is the operation meaningful here
        if op in FS:
            if m.loaded and FS[op] is None:
                return
            x.evaluateSingleBlocks(f_sky=FS[op])
            m.noise = m.noise or "own"
            m.evald = (m.noise, FS[op] if FS[op] is not None else w.f_sky)
        elif op in ("loadA", "loadB"):
            x.loadShotNoiseFromFile(files[op[-1]])
            m.noise = op[-1]
        elif op == "write_load":
            if m.noise is None:
                return
            f = d / "noise.h5"
            x.writeShotNoiseToFile(f)
            y = Coll(fcfg=fc)
            y.loadFiducialCls(cls)
            y.loadShotNoiseFromFile(f)
            for p in ref:
                k = f"{LONG[p[0]]}_{LONG[p[1]]}"
                nl = y.single_blocks[k].noise_lij
                ctx.check(nl.shape == ref[p][2].shape and np.array_equal(nl, x.single_blocks[k].noise_lij), "noise-file", f"{seq} {k}")
        elif op == "save_load":
            if m.evald is None or m.loaded:
                return
            f = d / "delta.h5"
            if f.exists():
                f.unlink()
            x.saveToHDF5(f)
            y = Coll.fromHDF5(f)
            ctx.eq(set(y), set(x), "reloaded-keys", f"{seq}")
            ctx.eq(set(y.single_blocks), set(x.single_blocks), "reloaded-blocks", f"{seq}")
            for name in x:
                ctx.check(np.array_equal(y[name].delta_c_lij, x[name].delta_c_lij)
                          and np.array_equal(y[name].inv_delta_c_lij, x[name].inv_delta_c_lij), "reloaded", f"{seq} {name}")
            x, m.loaded = y, True
        elif op == "xc":
            if m.evald is None or m.loaded:
                return
            x.buildXCBlocks()
            blocks(x, w, ref, noises, m, fc, ctx, seq, tol)
        ctx.step()
        # ---- what must be there now
        if m.evald is not None:
            for p in ref:
                k = f"{LONG[p[0]]}_{LONG[p[1]]}"
                b = x.single_blocks[k]
                want = expected(ref, noises, m, fc, p)
                ctx.check(close(b.delta_c_lij, want, tol), "delta-cl", lambda: f"{WORLDS[wi]} {seq[:n + 1]} {k}: {b.delta_c_lij[0]} expected {want[0]}")
                ctx.check(np.array_equal(b.l_bin_centers, ref[p][0]) and np.array_equal(b.l_bin_widths, ref[p][1]), "multipoles", f"{seq} {k}")
                ctx.check(np.array_equal(b.c_lij, ref[p][2]), "spectrum-altered", f"{seq} {k}")
                if p[0] == p[1] and op in FS:
                    a = x[LONG[p[0]]]
                    ctx.check(close(a.delta_c_lij, want, tol), "auto-entry", lambda: f"{seq[:n + 1]} {k}")
                    ctx.check(all(np.allclose(a.inv_delta_c_lij[l] @ want[l], np.eye(want.shape[1]), atol=1e-3)
                                  for l in range(len(want))), "inverse", lambda: f"{seq[:n + 1]} {k}")
        ctx.state((wi, m.noise, m.evald, m.loaded))
    ctx.trace()
    if m.evald:
        ctx.note({"world": str(WORLDS[wi]), "history": seq, "noise": m.noise, "evaluated_with": m.evald})
    for p in ref:
        ctx.check(np.array_equal(cls.cl_dict[f"{LONG[p[0]]}_{LONG[p[1]]}"].c_lij, ref[p][2]), "inputs-mutated", f"{seq}")


def blocks(x, w, ref, noises, m, fc, ctx, seq, tol):
    groups = [] if len(w.probes) < 2 else [tuple(w.probes)]
    if len(w.probes) > 2:
        groups += list(itertools.combinations(w.probes, 2))
    for g in groups:
        name = "+".join([LONG[p] for p in g] + ["XC"])
        if not ctx.check(name in x, "block-missing", lambda: f"{seq} {name} not among {list(x)}"):
            continue
        got = x[name]
        common = None
        for a in g:
            s = {e[0] for e in ELLS[a]}
            common = s if common is None else common & s
        ells = sorted(common)
        ctx.check(np.array_equal(got.l_bin_centers, ells), "block-ells", lambda: f"{seq} {name}: {got.l_bin_centers} expected {ells}")
        rows = []
        for a in g:
            row = []
            for b in g:
                key, tr = ((a, b), False) if (a, b) in ref else ((b, a), True)
                e = expected(ref, noises, m, fc, key)
                sel = [list(ref[key][0]).index(l) for l in ells]
                e = e[sel]
                row.append(e.transpose(0, 2, 1) if tr else e)
            rows.append(row)
        want = np.block(rows)
        ctx.check(close(got.delta_c_lij, want, tol), "block-matrix", lambda: f"{seq} {name}: {got.delta_c_lij[0]} expected {want[0]}")
        ctx.check(all(np.allclose(got.inv_delta_c_lij[l] @ want[l], np.eye(want.shape[1]), atol=1e-3) for l in range(len(ells))),
                  "block-inverse", f"{seq} {name}")

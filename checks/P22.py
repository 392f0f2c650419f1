"""Redshift densities: every kind of input, response, binning and grid, and every history of the density objects."""
import itertools
import math
import numpy as np

PROPERTY = "P22"
LEVEL = "model_checking"
RULE = ("all combinations of input density x sampling x instrument response x binning, evaluated on all grids, against the closed form of the "
        "convolution; all histories of set up / evaluate / surface densities / write and read / load another density into the object up "
        "to the depth; all pairs of binnings for the cross shot noise; a state is (inputs, set up or not, grid, surface evaluated)")
BOUNDS = {"quick": "4 shapes, 2 samplings, 6 responses, 5 binnings; inputs of 4 to 7 points; 4 wide responses x 3 binnings; 3 of 6 inputs set up one after another; histories of 8 operations to depth 3",
          "thorough": "4 shapes, 3 samplings, 9 responses, 8 binnings; histories to depth 4"}

SHAPES = ["redbook", "gauss", "flat", "two"]
SAMPLINGS = ["uniform", "uneven", "fine"]
R = dict(f_out=0.1, z_o=0.1, z_b=0.0, sigma_o=0.05, sigma_b=0.05, c_o=1.0, c_b=1.0)
RESPONSES = [R, dict(R, f_out=0.0), dict(R, f_out=0.35, z_o=-0.2, sigma_o=0.1), dict(R, z_b=0.03, c_b=1.02, c_o=0.9),
             dict(R, sigma_b=0.02, sigma_o=0.2, f_out=0.05), dict(R, f_out=1.0), dict(R, c_b=0.5, c_o=1.5), dict(R, sigma_b=0.3),
             dict(R, f_out=0.0, sigma_b=0.005)]
BINS = [[0.001, 0.6, 1.2, 2.5], [0.9, 1.1, 1.3], [0.001, 0.5, 3.0], [0.5, 1.5], [0.2, 0.21, 2.0],
        [0.001, 0.418, 0.56, 0.678, 0.789], [1.0, 1.1, 1.2, 1.3, 1.4, 1.5], [0.001, 2.5]]
WIDE = [dict(R, f_out=0.0, sigma_b=0.6), dict(R, f_out=0.0, sigma_b=0.3, z_b=0.8), dict(R, f_out=0.5, sigma_o=0.8), dict(R, f_out=0.0, sigma_b=0.2, c_b=3.0)]
WIDE_BINS = [[0.05, 0.1, 0.3], [0.001, 0.4], [0.3, 0.6]]
AGAIN = [("gauss", "uniform", 0, [0.5, 1.5]), ("gauss", "uniform", 0, [0.2, 0.8, 2.0]), ("gauss", "uniform", 0, [0.7, 1.1]), ("gauss", "uniform", 2, [0.5, 1.5]),
         ("two", "uniform", 0, [0.5, 1.5]), ("two", "uneven", 1, [0.2, 0.8, 2.0])]
NARROW = [(0.001, [0.9, 1.1]), (0.001, [0.9, 1.3]), (0.002, [0.9, 1.8]), (0.005, [0.001, 2.5]), (0.001, [0.001, 2.5]), (0.002, [0.001, 0.9])]


def domain(s):
    if s == "uniform":
        return np.linspace(0.001, 2.5, 41)
    if s == "uneven":
        return 0.001 + 2.499 * np.linspace(0, 1, 45) ** 1.3
    return np.linspace(0.0, 3.0, 201)


def shape(name, z):
    if name == "redbook":
        return 4e8 * z ** 2 * np.exp(-(z / 0.636) ** 1.5)
    if name == "gauss":
        return 5e6 * np.exp(-((z - 1.2) / 0.4) ** 2)
    if name == "flat":
        return 2e7 + 0 * z
    return 1e8 * np.exp(-((z - 0.5) / 0.15) ** 2) + 3e7 * np.exp(-((z - 1.6) / 0.3) ** 2)


GRIDS = {"A": np.linspace(0.001, 2.5, 33), "B": np.array([0.0, 0.3, 0.31, 0.9, 1.1, 1.3, 2.499, 2.5, 2.6, 4.0]), "C": np.array([1.0]),
         "D": 0.001 + 2.499 * np.linspace(0, 1, 33) ** 1.7}   # as many nodes as A between the same ends
GRIDS = {k: GRIDS[k] for k in "ADBC"}


def erf(x):
    return np.vectorize(math.erf)(x)


class Ref:
    """density of one probe by the definitions"""

    def __init__(self, z, y, edges, resp=None, niz=None, dens=None, f_sky=0.3):
        from scipy.interpolate import CubicSpline
        self.z, self.edges, self.resp, self.f_sky = z, np.array(edges, float), resp, f_sky
        if niz is None:
            self.s = CubicSpline(z, y, bc_type="not-a-knot")
            self.norm = [self.gauss_legendre(lambda t, i=i: self.conv(t, i)) for i in range(len(edges) - 1)]
            self.surface = np.array([self.integral(a, b) for a, b in zip(edges[:-1], edges[1:])])
        else:
            self.ns = [CubicSpline(z, n, bc_type="not-a-knot") for n in niz]
            self.surface = dens
        self.niz = niz

    def value(self, s, t):
        return np.where((t >= self.z[0]) & (t <= self.z[-1]), s(t), 0.0)

    def integral(self, a, b):
        a, b = max(a, self.z[0]), min(b, self.z[-1])
        return float(self.s.integrate(a, b)) if b > a else 0.0

    def conv(self, t, i):
        r, out = self.resp, 0
        for a, z0, s, c in ((1 - r["f_out"], r["z_b"], r["sigma_b"], r["c_b"]), (r["f_out"], r["z_o"], r["sigma_o"], r["c_o"])):
            w = math.sqrt(2) * s * (1 + t)
            out = out + a / (2 * c) * (erf((t - z0 - c * self.edges[i]) / w) - erf((t - z0 - c * self.edges[i + 1]) / w))
        return out * self.value(self.s, t)

    def gauss_legendre(self, f):
        x, w = np.polynomial.legendre.leggauss(8)
        knots = np.unique(np.concatenate([self.z, np.linspace(self.z[0], self.z[-1], 801)]))
        a, b = knots[:-1, None], knots[1:, None]
        return float(np.sum(f((a + b) / 2 + (b - a) / 2 * x) * w * (b - a) / 2))

    def n(self, grid):
        if self.niz is None:
            return np.array([self.conv(grid, i) / self.norm[i] for i in range(len(self.edges) - 1)])
        return np.array([self.value(s, grid) for s in self.ns])


_refs = {}


def reference(key):
    if key not in _refs:
        sh, sa, resp, edges = key
        z = domain(sa)
        _refs[key] = Ref(z, shape(sh, z), list(edges), dict(resp))
    return _refs[key]


def density(sh, sa, resp, edges, f_sky=0.3, probe="PhotometricGalaxy"):
    from seyfert.cosmology.redshift_density import RedshiftDensity
    d = RedshiftDensity(probe=probe)
    d.has_niz_from_input = False
    d.input_z_domain = domain(sa)
    d.input_dN_dz_dOmega = shape(sh, d.input_z_domain)
    d.z_bin_edges = np.array(edges, float)
    d.instrument_response = dict(resp)
    d.catalog_f_sky = f_sky
    return d


def niz_input(nb, z, k):
    out = np.array([np.exp(-((z - 0.4 - 0.5 * i - 0.1 * k) / (0.2 + 0.05 * i)) ** 2) * (1 + 0.3 * i) for i in range(nb)])
    return out


def cases(tier):
    q = tier == "quick"
    for sh, sa, r in itertools.product(SHAPES, SAMPLINGS[:2 if q else 3], range(6 if q else 9)):
        yield {"kind": "convolved", "shape": sh, "sampling": sa, "resp": r, "bins": 5 if q else 8}
    for k in (4, 5, 6, 7):
        yield {"kind": "convolved", "shape": "gauss", "sampling": f"coarse{k}", "resp": 0, "bins": 2}
        yield {"kind": "given", "nb": 2, "sampling": f"coarse{k}"}
    for r in range(len(WIDE)):
        yield {"kind": "wide", "resp": r}
    for a in range(len(AGAIN)):
        yield {"kind": "again", "first": a}
    for k, b in enumerate(NARROW):
        yield {"kind": "narrow", "sigma": b[0], "edges": b[1]}
    for nb, sa in itertools.product((1, 2, 3), SAMPLINGS[:2 if q else 3]):
        yield {"kind": "given", "nb": nb, "sampling": sa}
    for start, first in itertools.product(range(len(OBJECTS)), OPS):
        yield {"kind": "history", "start": start, "first": first, "depth": 3 if q else 4}
    yield {"kind": "overlap"}
    for a, b in itertools.product(range(5 if q else 8), repeat=2):
        yield {"kind": "cross", "a": a, "b": b}
    for niz, resp, sky in itertools.product((False, True), ("phz", "spz"), ("0.35", "1/3", "15000/41253")):
        yield {"kind": "program", "niz": niz, "resp": resp, "sky": sky}


def run_case(case, ctx):
    if case["kind"] in ("history", "program"):
        with ctx.scratch() as d:
            globals()[case["kind"]](case, ctx, d)
    else:
        globals()[case["kind"]](case, ctx)


def near(got, want, tol, scale=None):
    got, want = np.asarray(got, float), np.asarray(want, float)
    if got.shape != want.shape or not np.all(np.isfinite(got)):
        return False
    m = np.abs(want).max() if scale is None else scale
    return bool(np.all(np.abs(got - want) <= tol * max(m, 1e-300)))


def compare(ctx, d, ref, grid, what, tol=1e-6, key="n_i"):
    want = ref.n(grid)
    # the scale of a bin is its peak, whatever part of it the grid sees
    for i in range(len(want)):
        peak = max(np.abs(ref.n(GRIDS["A"])[i]).max(), np.abs(want[i]).max())
        ctx.check(near(d.norm_density_iz[i], want[i], tol, peak), key,
                  f"{what}: bin {i}: {d.norm_density_iz[i]} instead of {want[i]}")


def convolved(case, ctx):
    sh, sa = case["shape"], case["sampling"]
    resp = RESPONSES[case["resp"]]
    for b in range(case["bins"]):
        edges = BINS[b]
        ref = reference((sh, sa, tuple(sorted(resp.items())), tuple(edges)))
        if min(ref.norm) < 1e-6 * max(ref.surface.max(), 1.0):
            ctx.count("empty_bins")
            continue
        d = density(sh, sa, resp, edges)
        what = f"{sh} {sa} response {case['resp']} bins {edges}"
        ctx.state((sh, sa, case["resp"], b))
        with ctx.guard("evaluate", what):
            d.setUp()
            for g, grid in GRIDS.items():
                ctx.step()
                d.evaluate(grid)
                ctx.check(np.array_equal(d.z_grid, grid), "grid", what)
                compare(ctx, d, ref, grid, f"{what} grid {g}")
            d.evaluateSurfaceDensity()
            ctx.step()
            ctx.check(near(d.dN_dOmega_bins, ref.surface, 1e-6), "surface", f"{what}: {d.dN_dOmega_bins} instead of {ref.surface}")
            ctx.check(near(d.shot_noise * ref.surface, 1 + 0 * ref.surface, 1e-6), "shot_noise", what)
            ctx.check(d.n_bins == len(edges) - 1 and near(d.z_bin_centers, (ref.edges[1:] + ref.edges[:-1]) / 2, 1e-14), "bins", what)
            ctx.check(d.z_min == d.input_z_domain[0] and d.z_max == d.input_z_domain[-1], "domain", what)
            total = ref.integral(ref.z[0], ref.z[-1]) * 4 * np.pi * 0.3
            ctx.check(near(d.computeTotalGalaxyNumber("quad"), total, 1e-6), "total", what)
            if len(ref.z) % 2:
                # parabolas through consecutive triples
                y, z, simpson = shape(sh, ref.z), ref.z, 0.0
                for k in range(0, len(z) - 2, 2):
                    p = np.polyint(np.polyfit(z[k:k + 3] - z[k + 1], y[k:k + 3], 2))
                    simpson += np.polyval(p, z[k + 2] - z[k + 1]) - np.polyval(p, z[k] - z[k + 1])
                ctx.check(near(d.computeTotalGalaxyNumber(), simpson * 4 * np.pi * 0.3, 1e-9), "total", f"{what} by Simpson")
    ctx.trace()


def wide(case, ctx):
    """responses that spread a bin far beyond its edges"""
    resp = WIDE[case["resp"]]
    for edges in WIDE_BINS:
        ref = reference(("flat", "uniform", tuple(sorted(resp.items())), tuple(edges)))
        d = density("flat", "uniform", resp, edges)
        ctx.state(("wide", case["resp"], tuple(edges)))
        with ctx.guard("evaluate", f"response {resp}, bins {edges}"):
            d.setUp()
            d.evaluate(GRIDS["A"])
            ctx.step()
            compare(ctx, d, ref, GRIDS["A"], f"response {resp}, bins {edges}")
    ctx.trace()


def again(case, ctx):
    """an object is given other inputs and set up again"""
    for steps in itertools.product(range(len(AGAIN)), repeat=2):
        todo = (case["first"], *steps)
        if case["first"] == steps[0]:
            continue
        d = None
        for k in todo:
            sh, sa, r, edges = AGAIN[k]
            new = density(sh, sa, RESPONSES[r], edges)
            if d is None:
                d = new
            else:
                for name in ("input_z_domain", "input_dN_dz_dOmega", "z_bin_edges", "instrument_response"):
                    setattr(d, name, getattr(new, name))
            what = f"inputs {todo}, the object having {k}"
            ctx.step()
            with ctx.guard("again", what):
                d.setUp()
                d.evaluate(GRIDS["B"])
                d.evaluateSurfaceDensity()
                ref = reference((sh, sa, tuple(sorted(RESPONSES[r].items())), tuple(edges)))
                compare(ctx, d, ref, GRIDS["B"], what)
                ctx.check(near(d.dN_dOmega_bins, ref.surface, 1e-6), "surface", f"{what}: {d.dN_dOmega_bins} instead of {ref.surface}")
        ctx.state(("again", todo))
    ctx.trace()


def narrow(case, ctx):
    edges, s = case["edges"], case["sigma"]
    resp = dict(R, f_out=0.0, sigma_b=s)
    ref = reference(("gauss", "uniform", tuple(sorted(resp.items())), tuple(edges)))
    d = density("gauss", "uniform", resp, edges)
    ctx.state(("narrow", s, tuple(edges)))
    with ctx.guard("evaluate", f"response {s}, bin {edges}"):
        d.setUp()
        d.evaluate(GRIDS["A"])
        ctx.step()
        compare(ctx, d, ref, GRIDS["A"], f"response {s}, bin {edges}", 1e-6, f"narrow:{s}:{edges[0]}:{edges[1]}")
    ctx.trace()


def given_density(nb, sa, k=0, probe="PhotometricGalaxy"):
    from seyfert.cosmology.redshift_density import RedshiftDensity
    d = RedshiftDensity(probe=probe)
    d.has_niz_from_input = True
    d.input_z_domain = domain(sa)
    d.input_n_iz = niz_input(nb, d.input_z_domain, k)
    d.z_bin_edges = np.linspace(0.2, 2.0, nb + 1)
    d.catalog_f_sky = 0.3
    d.dN_dOmega_bins = 1e6 * (1.0 + np.arange(nb) + k)
    return d


def given(case, ctx):
    from seyfert.cosmology.redshift_density import DensityError
    for k in range(3):
        d = given_density(case["nb"], case["sampling"], k)
        z = d.input_z_domain
        ref = Ref(z, None, d.z_bin_edges, niz=niz_input(case["nb"], z, k), dens=1e6 * (1.0 + np.arange(case["nb"]) + k))
        what = f"{case['nb']} given bins, {case['sampling']}"
        with ctx.guard("evaluate", what):
            d.setUp()
            for g, grid in GRIDS.items():
                ctx.state((case["nb"], case["sampling"], k, g))
                ctx.step()
                d.evaluate(grid)
                compare(ctx, d, ref, grid, f"{what} grid {g}", 1e-9)
                d.evaluateSurfaceDensity()
                ctx.check(near(d.dN_dOmega_bins, ref.surface, 1e-14), "surface", what)
                ctx.check(near(d.shot_noise, 1 / ref.surface, 1e-14), "shot_noise", what)
        ctx.raises(DensityError, lambda: d.convolvedNdzdOmegaWithInstrumentResponse(1.0, 0), "convolved", "convolved twice")
    ctx.trace()


OBJECTS = [("gauss", "uniform", 0, [0.5, 1.5]), ("two", "uneven", 2, [0.2, 0.8, 2.0]), 1, 3]
OPS = ["setup", "evalA", "evalB", "evalD", "surface", "reopen", "load0", "load2"]


def make(o):
    if isinstance(OBJECTS[o], int):
        return given_density(OBJECTS[o], "uniform", o)
    sh, sa, r, e = OBJECTS[o]
    return density(sh, sa, RESPONSES[r], e)


def model(o):
    if isinstance(OBJECTS[o], int):
        key = ("given", o)
        if key not in _refs:
            z, nb = domain("uniform"), OBJECTS[o]
            _refs[key] = Ref(z, None, np.linspace(0.2, 2.0, nb + 1), niz=niz_input(nb, z, o), dens=1e6 * (1.0 + np.arange(nb) + o))
        return _refs[key]
    sh, sa, r, e = OBJECTS[o]
    return reference((sh, sa, tuple(sorted(RESPONSES[r].items())), tuple(e)))


def history(case, ctx, scratch):
    from seyfert.cosmology.redshift_density import RedshiftDensity, DensityError
    files = {}
    for o in (0, 2):
        files[o] = scratch / f"other{o}.h5"
        make(o).saveToHDF5(files[o])
    count = itertools.count()
    for rest in itertools.product(OPS, repeat=case["depth"] - 1):
        ops = (case["first"],) + rest
        if ops.count("setup") > 2:          # slow, and the state after it does not depend on how often it was done
            continue
        d, which, ready, grid, surf = make(case["start"]), case["start"], False, None, isinstance(OBJECTS[case["start"]], int)
        what = f"object {case['start']}: {' '.join(ops)}"
        with ctx.guard("history", what):
            for op in ops:
                ctx.step()
                if op == "setup":
                    d.setUp()
                    ready = True
                elif op in ("evalA", "evalB", "evalD"):
                    if not ready:
                        ctx.raises(DensityError, lambda: d.evaluate(GRIDS[op[-1]]), "not_ready", f"{what}: evaluated before being set up")
                        continue
                    grid = op[-1]
                    d.evaluate(GRIDS[grid])
                elif op == "surface":
                    if not ready:
                        continue
                    d.evaluateSurfaceDensity()
                    surf = True
                elif op == "reopen":
                    f = scratch / f"d{next(count)}.h5"
                    d.saveToHDF5(f)
                    new = RedshiftDensity.fromHDF5(f)
                    f.unlink()
                    ctx.check(new == d, "reopen", f"{what}: the density read differs from the one written")
                    d, ready = new, False
                else:
                    d.loadFromHDF5(files[int(op[-1])])
                    which, ready = int(op[-1]), False
                    surf, grid = isinstance(OBJECTS[which], int), None
                ctx.state((which, ready, grid, surf))
                ref = model(which)
                if not surf:
                    ctx.check(d.dN_dOmega_bins is None, "surface", f"{what}: surface densities {d.dN_dOmega_bins} from nowhere")
                ctx.check((d.norm_density_iz is None) == (grid is None), "leftover", f"{what}: {d.norm_density_iz}")
                ctx.check(near(d.z_bin_edges, ref.edges, 1e-14), "edges", what)
                if surf:
                    ctx.check(near(d.dN_dOmega_bins, ref.surface, 1e-6), "surface", f"{what}: {d.dN_dOmega_bins} instead of {ref.surface}")
                if grid is not None:
                    ctx.check(np.array_equal(d.z_grid, GRIDS[grid]), "grid", what)
                    compare(ctx, d, ref, GRIDS[grid], what)
        ctx.trace()


def overlap(case, ctx):
    from seyfert.cosmology.redshift_density import get_bins_overlap
    v = [0.0, 0.5, 1.0, 1.5, 2.0]
    for a, b, c, e in itertools.product(v, repeat=4):
        ctx.state((a, b, c, e))
        ctx.step()
        if b <= a or e <= c:
            ctx.raises(Exception, lambda: get_bins_overlap(a, b, c, e), "overlap", f"reversed bin accepted: {a} {b} {c} {e}")
            continue
        lo, hi = max(a, c), min(b, e)
        with ctx.guard("overlap", f"{a} {b} {c} {e}"):
            got = get_bins_overlap(a, b, c, e)
            ctx.check(got == ((lo, hi) if hi > lo else None), "overlap", f"{a} {b} {c} {e}: {got}")
    ctx.trace()


def cross(case, ctx):
    from seyfert.cosmology.redshift_density import compute_photoXspectro_shotnoise_ij as compute
    ea, eb = BINS[case["a"]], BINS[case["b"]]
    z = domain("uniform")
    sp = Ref.__new__(Ref)
    from scipy.interpolate import CubicSpline
    sp.z, sp.s = z, CubicSpline(z, shape("two", z))
    nsp = density("two", "uniform", RESPONSES[1], eb, probe="SpectroscopicGalaxy")
    nph = density("redbook", "uniform", RESPONSES[0], ea)
    nph.dN_dOmega_bins = 1e7 * (1.0 + np.arange(len(ea) - 1))
    nsp.dN_dOmega_bins = np.array([sp.integral(a, b) for a, b in zip(eb[:-1], eb[1:])])
    want = np.array([[sp.integral(max(a0, b0), min(a1, b1)) / (nph.dN_dOmega_bins[i] * nsp.dN_dOmega_bins[j])
                      for j, (b0, b1) in enumerate(zip(eb[:-1], eb[1:]))] for i, (a0, a1) in enumerate(zip(ea[:-1], ea[1:]))])
    ctx.state((case["a"], case["b"]))
    with ctx.guard("cross", f"{ea} {eb}"):
        got = compute(nph, nsp)
        ctx.step()
        ctx.check(near(got, want, 1e-7), "cross", f"bins {ea} and {eb}: {got} instead of {want}")
    ctx.raises(AssertionError, lambda: compute(nsp, nph), "cross", "probes exchanged")
    ctx.trace()


def program(case, ctx, scratch):
    """bin/create_h5density makes the density of its arguments"""
    import subprocess
    import sys
    import os
    from seyfert.cosmology.redshift_density import RedshiftDensity
    src = given_density(2, "uniform") if case["niz"] else density("redbook", "uniform", R, BINS[0])
    npz = scratch / "in.npz"
    arrays = {"z": src.input_z_domain, "z_bin_edges": src.z_bin_edges}
    arrays.update({"niz": src.input_n_iz} if case["niz"] else {"dndzdomega_invsterad": src.input_dN_dz_dOmega})
    np.savez_compressed(npz, **arrays)
    out = scratch / "out.h5"
    for probe in ("PhotometricGalaxy", "SpectroscopicGalaxy", "Lensing", "Void"):
        argv = [sys.executable, "/repo/bin/create_h5density", probe, "-ir", case["resp"], "-df", str(npz), "-f_sky", case["sky"], "-o", str(out)]
        r = subprocess.run(argv + (["-niz"] if case["niz"] else []), cwd=scratch, capture_output=True, text=True,
                           env=dict(os.environ, PYTHONPATH="/repo", PYTHONDONTWRITEBYTECODE="1"))
        ctx.step()
        ctx.state((probe, case["niz"], case["resp"], case["sky"]))
        ctx.check(r.returncode == 0, "program", r.stderr[-400:])
        if r.returncode:
            continue
        with ctx.guard("program", probe):
            d = RedshiftDensity.fromHDF5(out)
            num, _, den = case["sky"].partition("/")
            ok = d.probe == probe and abs(d.catalog_f_sky - float(num) / float(den or 1)) < 1e-12 and bool(d.has_niz_from_input) == case["niz"]
            ctx.check(ok, "program", f"probe {d.probe}, sky fraction {d.catalog_f_sky}, given {d.has_niz_from_input}")
            ctx.check(np.array_equal(d.input_z_domain, src.input_z_domain) and np.array_equal(d.z_bin_edges, src.z_bin_edges), "program", "grids")
            if case["niz"]:
                ctx.check(np.array_equal(d.input_n_iz, src.input_n_iz), "program", "n_i(z)")
            else:
                ctx.check(np.array_equal(d.input_dN_dz_dOmega, src.input_dN_dz_dOmega), "program", "dN/dz")
                want = dict(R) if case["resp"] == "phz" else dict(R, f_out=0.0, sigma_b=0.001)
                ctx.check({k: float(v) for k, v in d.instrument_response.items()} == want, "program", f"response {d.instrument_response}")
        out.unlink()
    ctx.trace()

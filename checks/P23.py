"""Galaxy and void bias models: every binning, order and naming of parameters, grid, and every history of the bias objects."""
import itertools
import math
import numpy as np

PROPERTY = "P23"
LEVEL = "model_checking"
RULE = ("all combinations of model x number of bins x order and naming of the bias parameters x redshift grid (also on and next to the bin "
        "edges), against the definition at each redshift; all histories of changing a value / initialising and evaluating / writing and "
        "reading / loading another bias into the object up to the depth; a state is (model, values, bins, grid evaluated)")
BOUNDS = {"quick": "1 to 12 bins, 4 orders, 6 namings, 4 grids; histories of 7 operations to depth 4",
          "thorough": "1 to 16 bins, 6 orders, 6 namings, 4 grids; histories to depth 5"}
NAMES = [lambda i: f"bgcph{i}", lambda i: f"bgcsp{i + 1}", lambda i: f"b{i + 1}_gal", lambda i: f"bias{i + 7}", lambda i: f"b{95 + i}", lambda i: f"bin{998 + i}_b2"]
ORDERS = ["given", "reversed", "alphabetical", "file", "evens", "rotated"]


def cases(tier):
    q = tier == "quick"
    for model, n in itertools.product(("piecewise", "constant"), range(1, 13 if q else 17)):
        yield {"kind": "binned", "model": model, "n": n, "orders": 4 if q else 6, "names": 6 if q else len(NAMES)}
    yield {"kind": "flagship"}
    yield {"kind": "growth", "grids": 3 if q else 5}
    for w in range(3 if q else 6):
        yield {"kind": "vdn", "which": w}
    yield {"kind": "refused"}
    for s, f in itertools.product(range(len(START)), OPS):
        yield {"kind": "history", "start": s, "first": f, "depth": 4 if q else 5}


def run_case(case, ctx):
    with ctx.scratch() as d:
        globals()[case["kind"]](case, ctx, d)


def edges(n, k=0):
    return np.round(0.1 + np.cumsum(np.concatenate([[0.0], 0.1 + 0.05 * (np.arange(n) % 3) + 0.02 * k])), 6)


def values(n):
    return [1.0 + 0.1 * ((7 * i) % 16) + 0.01 * i for i in range(n)]


def grids(e):
    mid = (e[1:] + e[:-1]) / 2
    yield np.linspace(0.001, 2.5, 40)
    yield np.sort(np.concatenate([e, mid, np.nextafter(e, 10), np.nextafter(e, -10), [0.0, 5.0]]))
    yield e[:1].copy()
    yield np.array([e[-1] + 0.3, e[0] - 0.05, mid[0]])


def ordered(d, order, scratch):
    names = list(d)
    if order == "reversed":
        names = names[::-1]
    elif order in ("alphabetical", "file"):
        names = sorted(names)
    elif order == "evens":
        names = names[::2] + names[1::2]
    elif order == "rotated":
        names = names[len(names) // 2:] + names[:len(names) // 2]
    return {n: d[n] for n in names}


def piecewise(vals, e, z):
    out = []
    for t in z:
        i = 0
        for k in range(len(vals)):
            if t >= e[k]:
                i = k
        out.append(vals[i])
    return np.array([out] * len(vals))


def bias(model, e, pars, add=None, probe="PhotometricGalaxy"):
    from seyfert.cosmology.bias import Bias
    b = Bias(probe=probe, z_bin_edges=np.array(e, float))
    b.model_name = model
    b.nuisance_parameters = dict(pars)
    b.additional_parameters = dict(add or {})
    return b


def near(got, want, tol=1e-13):
    got, want = np.asarray(got, float), np.asarray(want, float)
    return got.shape == want.shape and bool(np.all(np.abs(got - want) <= tol * np.maximum(np.abs(want), 1e-300)))


def binned(case, ctx, scratch):
    from seyfert.cosmology.bias import Bias, BiasError
    model, n = case["model"], case["n"]
    e, vals = edges(n), values(n)
    for (ni, name), order in itertools.product(enumerate(NAMES[:case["names"]]), ORDERS[:case["orders"]]):
        pars = ordered({name(i): v for i, v in enumerate(vals)}, order, scratch)
        b = bias(model, e, pars)
        what = f"{model} {n} bins named {name(0)}, {order}"
        with ctx.guard("evaluate", what):
            if order == "file":
                f = scratch / f"b{ni}.h5"
                b.saveToHDF5(f)
                b = Bias.fromHDF5(f)
            b.initBiasModel()
            for g, z in enumerate(grids(e)):
                ctx.state((model, n, ni, order, g))
                ctx.step()
                keep = z.copy()
                b.evaluateBias(z)
                want = piecewise(vals, e, z) if model == "piecewise" else np.repeat(np.array(vals)[:, None], len(z), axis=1)
                ctx.check(near(b.b_i_z, want), model, f"{what}, grid {g}: {b.b_i_z} instead of {want}")
                ctx.check(np.array_equal(z, keep) and np.array_equal(b.z_grid, keep), "grid", what)
        for wrong in (n - 1, n + 1):
            if wrong:
                w = bias(model, e, {name(i): 1.0 + i for i in range(wrong)})
                ctx.step()
                w.initBiasModel()
                ctx.raises(BiasError, lambda: w.evaluateBias(np.linspace(0, 2, 5)), "count", f"{what}: {wrong} values accepted")
    ctx.trace()


def flagship(case, ctx, scratch):
    for a, b, c, d, n in itertools.product((0.5125, 0.0), (1.377, -1.0), (0.222, 3.0, -1.7, 0.0), (-0.249, 1.2), (1, 13)):
        e = edges(n)
        bb = bias("euclid_flagship_photo", e, {"Dph": d, "Aph": a, "Cph": c, "Bph": b})
        with ctx.guard("flagship", f"{a} {b} {c} {d}"):
            bb.initBiasModel()
            for g, z in enumerate(grids(e)):
                ctx.step()
                bb.evaluateBias(z)
                want = np.array([[a + b / (1 + math.exp(-c * (t - d))) for t in z]] * n)
                ctx.check(near(bb.b_i_z, want, 1e-12), "flagship", f"{a} {b} {c} {d}: {bb.b_i_z} instead of {want}")
        ctx.state((a, b, c, d, n))
    ctx.trace()


class Cosmo:
    """what the void models need of a cosmology: made from the repository's own class"""

    def __new__(cls, z, D, k=None, P=None):
        from seyfert.cosmology.cosmology import Cosmology
        from seyfert.cosmology.power_spectrum import PowerSpectrum
        c = Cosmology()
        c.z_grid = z
        c.growth_factor_z = D
        if k is not None:
            c.power_spectrum = PowerSpectrum()
            c.power_spectrum.k_grid, c.power_spectrum.z_grid = k, z
            c.power_spectrum.lin_p_mm_z_k = P[None, :] * (D[:, None] / D[0]) ** 2
        return c


def growth_of(z, k):
    return 1.0 / (1 + z) ** (0.7 + 0.1 * k) * (1 + 0.05 * np.sin(2 * z))


def centers(e, z, y):
    from scipy.interpolate import CubicSpline
    e = np.asarray(e)
    return CubicSpline(z, y, bc_type="not-a-knot")((e[1:] + e[:-1]) / 2)


def growth(case, ctx, scratch):
    from seyfert.cosmology.bias import BiasError
    for g, n, k, v in itertools.product(range(case["grids"]), (1, 2, 7), range(3), (-2.0, 1.3)):
        z = np.linspace(0.0, 3.0, 20 + 7 * g) if g % 2 else 3.0 * np.linspace(0, 1, 21 + g) ** 1.5
        e = edges(n, 4)
        D = growth_of(z, k)
        b = bias("fiducial_growth_void", e, {"voidbias0": v}, probe="Void")
        ctx.state((g, n, k, v))
        ctx.step()
        with ctx.guard("growth", f"{g} {n} {k}"):
            b.initBiasModel(fiducial_cosmology=Cosmo(z, D))
            b.evaluateBias(z)
            want = np.repeat(centers(e, z, v / D)[:, None], len(z), axis=1)
            ctx.check(near(b.b_i_z, want, 1e-10), "growth", f"grid {g}, {n} bins: {b.b_i_z[:, 0]} instead of {want[:, 0]}")
        other = z.copy()
        other[3] *= 1 + 1e-6
        ctx.raises(BiasError, lambda: b.evaluateBias(other), "growth_grid", "a grid other than the cosmology's accepted")
    ctx.trace()


def simpson(y, x):
    """parabolas through consecutive triples of an odd number of points"""
    out = 0.0
    for i in range(0, len(x) - 2, 2):
        h0, h1 = x[i + 1] - x[i], x[i + 2] - x[i + 1]
        s = h0 + h1
        out += s / 6 * (y[i] * (2 - h1 / h0) + y[i + 1] * s * s / (h0 * h1) + y[i + 2] * (2 - h0 / h1))
    return out


def sigma(R, k, P):
    from scipy.special import betainc
    W = 1 - betainc(4, 4, np.clip((k * R - 0.9) / 0.2, 0, 1))
    return math.sqrt(simpson(k ** 2 * P * W ** 2 / (2 * math.pi ** 2), k))


def vdn(case, ctx, scratch):
    from seyfert.cosmology.bias import BiasError
    w = case["which"]
    z = np.linspace(0.0, 2.5, 11 + 2 * w)
    D = growth_of(z, w)
    k = np.logspace(-4, 1.0, 801)
    P = 2e4 * (1 + 0.3 * w) * (k / 0.02) / (1 + (k / 0.02) ** 2.4)
    P *= ((1.6, 0.8, 2.5, 1.2, 2.0, 3.0)[w] / sigma(15.0, k, P)) ** 2
    R = np.linspace(15.0 + 5 * w, 60.0 + 10 * w, 9 + 2 * w)
    add = {"R_min_Mpc": R[0], "R_max_Mpc": R[-1], "R_grid_size": float(len(R)), "delta_c0": 1.686 - 0.1 * w, "delta_v0": -2.71 + 0.4 * w}
    cosmo = Cosmo(z, D, k, P)
    e = edges(3 + w, 4)
    sR = [sigma(r, k, P) for r in R]
    RL = R / 1.7
    step = 0.5 * (RL[1] - RL[0])
    ders = [(-sigma(r + 2 * step, k, P) + 8 * sigma(r + step, k, P) - 8 * sigma(r - step, k, P) + sigma(r - 2 * step, k, P)) / (12 * step)
            for r in RL]
    sRL = [sigma(r, k, P) for r in RL]
    want, branches = [], set()
    for d in D:
        dc, dv = add["delta_c0"] / d, add["delta_v0"] / d
        DD = abs(dv) / (abs(dv) + dc)
        size, prod = [], []
        for i, r in enumerate(R):
            nu, x = abs(dv) / sR[i], DD / abs(dv) * sR[i]
            branches.add(x <= 0.276)
            if x <= 0.276:
                f = math.sqrt(2 / math.pi) * nu * math.exp(-nu ** 2 / 2)
            else:
                f = 2 * sum(j * math.pi * x ** 2 * math.sin(j * math.pi * DD) * math.exp(-(j * math.pi * x) ** 2 / 2) for j in range(1, 5))
            n = f / (r * 4 / 3 * math.pi * r ** 3) * -(RL[i] / sRL[i]) * ders[i]
            size.append(n)
            prod.append(n * (1 + (nu ** 2 - 1) / dv + dv * DD / (4 * dc ** 2 * nu ** 2)))
        want.append(simpson(prod, R) / simpson(size, R))
    for b in branches:
        ctx.count(f"multiplicity_branch_{b}")
    b = bias("vdn_void", e, {}, add, probe="Void")
    ctx.state(w)
    ctx.step()
    with ctx.guard("vdn", f"world {w}"):
        b.initBiasModel(cosmology=cosmo)
        b.evaluateBias(z)
        exp = np.repeat(centers(e, z, np.array(want))[:, None], len(z), axis=1)
        ctx.check(near(b.b_i_z, exp, 1e-8), "vdn", f"world {w}: {b.b_i_z[:, 0]} instead of {exp[:, 0]}")
        got = cosmo.computeSigmaR(R)
        ctx.check(near(got, sR, 1e-9), "sigmaR", f"{got} instead of {sR}")
        ctx.check(near(cosmo.computeSigmaR(float(R[0])), sR[0], 1e-9), "sigmaR", "of one radius")
    ctx.raises(BiasError, lambda: b.evaluateBias(z + 0.01), "vdn_grid", "a grid other than the cosmology's accepted")
    ctx.trace()


def refused(case, ctx, scratch):
    from seyfert.cosmology.bias import BiasError
    e = edges(2)
    for model, exc, kw in (("vdn_void", BiasError, {}), ("vdn_void", BiasError, {"fiducial_cosmology": 1}),
                           ("fiducial_growth_void", BiasError, {}), ("fiducial_growth_void", BiasError, {"cosmology": 1}),
                           ("linear", KeyError, {}), (None, KeyError, {}), ("Piecewise", KeyError, {})):
        ctx.state((model, str(kw)))
        ctx.step()
        b = bias(model, e, {"b1": 1.0, "b2": 2.0})
        ctx.raises(exc, lambda: b.initBiasModel(**kw), "refused", f"{model} with {kw}")
    ctx.trace()


START = [("piecewise", 3), ("constant", 11), ("euclid_flagship_photo", 2)]
OPS = ["set_init", "init", "evalA", "evalB", "reopen", "loadP", "loadC"]
ZA, ZB = np.linspace(0.0, 2.5, 17), np.array([0.1, 0.2, 0.35, 1.0])


def start(s):
    model, n = START[s]
    if model == "euclid_flagship_photo":
        return model, edges(n), {"Aph": 0.5, "Bph": 1.4, "Cph": 0.3, "Dph": -0.2}
    return model, edges(n, s), {f"bgcph{i}": v for i, v in enumerate(values(n))}


def expected(model, e, pars, z):
    if model == "euclid_flagship_photo":
        return np.array([[pars["Aph"] + pars["Bph"] / (1 + math.exp(-pars["Cph"] * (t - pars["Dph"]))) for t in z]] * (len(e) - 1))
    vals = [pars[f"bgcph{i}"] for i in range(len(e) - 1)]
    return piecewise(vals, e, z) if model == "piecewise" else np.repeat(np.array(vals)[:, None], len(z), axis=1)


def history(case, ctx, scratch):
    from seyfert.cosmology.bias import Bias
    other = {"loadP": ("piecewise", edges(2, 9), {"bgcph0": 3.1, "bgcph1": 2.7}),
             "loadC": ("constant", edges(12, 5), {f"bgcph{i}": 5.0 - 0.2 * i for i in range(12)})}
    for k, (m, e, p) in other.items():
        bias(m, e, p).saveToHDF5(scratch / f"{k}.h5")
    count = itertools.count()
    for rest in itertools.product(OPS, repeat=case["depth"] - 1):
        ops = (case["first"],) + rest
        model, e, pars = start(case["start"])
        b = bias(model, e, pars)
        pars = dict(pars)
        ready, grid, result = False, None, None
        what = f"{model}: {' '.join(ops)}"
        with ctx.guard("history", what):
            for op in ops:
                ctx.step()
                if op == "set_init":
                    k = sorted(pars)[-1]
                    pars[k] = pars[k] + 0.37
                    b.nuisance_parameters[k] = pars[k]
                if op in ("init", "set_init"):
                    b.initBiasModel()
                    ready = True
                elif op in ("evalA", "evalB"):
                    if not ready:
                        continue
                    grid = ZA if op == "evalA" else ZB
                    b.evaluateBias(grid)
                    result = expected(model, e, pars, grid)
                elif op == "reopen":
                    f = scratch / f"h{next(count)}.h5"
                    b.saveToHDF5(f)
                    new = Bias.fromHDF5(f)
                    f.unlink()
                    ctx.check(new == b, "reopen", f"{what}: differs from what was written")
                    b, ready = new, False
                elif op in other:
                    b.loadFromHDF5(scratch / f"{op}.h5")
                    model, e, pars = other[op][0], other[op][1], dict(other[op][2])
                    ready, grid, result = False, None, None
                ctx.state((model, tuple(sorted(pars.items())), ready, None if grid is None else len(grid)))
                ok = (b.b_i_z is None) if result is None else (b.b_i_z is not None and near(b.b_i_z, result, 1e-12))
                ctx.check(ok, "history", f"{what}: after {op}: {b.b_i_z} instead of {result}")
                ctx.check(b.has_output == (result is not None), "has_output", what)
                ctx.check({k: float(v) for k, v in b.nuisance_parameters.items()} == pars, "values", f"{what}: {b.nuisance_parameters}")
        ctx.trace()

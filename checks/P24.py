"""The background cosmology: every universe and redshift of a grid, every parameter limit, and every history of evaluating, changing and storing."""
import copy
import itertools
import math
import numpy as np

PROPERTY = "P24"
LEVEL = "model_checking"
RULE = ("all combinations of dark energy, matter, curvature, Hubble constant and growth index over their ranges x redshift grids, against the "
        "definitions at each redshift; all combinations of fiducial and current values around every limit; all histories of changing a value / "
        "evaluating / rescaling the spectra / discarding arrays / writing and reading to the depth; a state is (universe, arrays held)")
BOUNDS = {"quick": "4x5x3x3 universes x 2 h x 3 growth indices x 4 grids; all limits; histories of 8 operations to depth 4 from 3 starts",
          "thorough": "6x7x4x5 universes x 3 h x 4 growth indices x 5 grids; histories to depth 5 from 3 starts"}
NODES, WEIGHTS = np.polynomial.legendre.leggauss(48)
C_KM_S = 299792.458


def cases(tier):
    q = tier == "quick"
    for w0, wa in itertools.product((-1.0, -0.8, -1.3, 0.2) if q else (-1.0, -0.8, -1.3, 0.2, -2.5, 0.9),
                                    (0.0, 0.3, -0.6, 1.1, -1.9) if q else (0.0, 0.3, -0.6, 1.1, -1.9, 0.01, 1.9)):
        yield {"kind": "universe", "w0": w0, "wa": wa, "omm": (0.32, 0.15, 1.0) if q else (0.32, 0.15, 1.0, 0.6),
               "omk": (0.0, 0.05, -0.04) if q else (0.0, 0.05, -0.04, 0.2, -0.1), "h": (0.67, 1.0) if q else (0.67, 1.0, 0.5),
               "gamma": (0.55, 0.0, 1.0) if q else (0.55, 0.0, 1.0, 0.3), "grids": 4 if q else 5}
    yield {"kind": "limits"}
    yield {"kind": "flatness"}
    for k in range(3 if q else 6):
        yield {"kind": "growth", "which": k}
    for s, f in itertools.product(range(3), OPS):
        yield {"kind": "history", "start": s, "first": f, "depth": 4 if q else 5}


def run_case(case, ctx):
    with ctx.scratch() as d:
        globals()[case["kind"]](case, ctx, d)


def parameter(name, value, fiducial=None):
    from seyfert.cosmology.parameter import PhysicalParameter
    return PhysicalParameter(name=name, fiducial=value if fiducial is None else fiducial, current_value=value,
                             kind=PhysicalParameter.COSMO_PAR_STRING, is_free_parameter=True)


BASE = {"h": 0.67, "w0": -0.9, "wa": 0.2, "Omm": 0.32, "OmDE": 0.68, "Omb": 0.05, "sigma8": 0.816, "ns": 0.96, "mnu": 0.06, "gamma": 0.55}


def universe_of(flat=True, z=None, model="CPL", **vals):
    from seyfert.cosmology.cosmology import Cosmology
    return Cosmology(params={k: parameter(k, float(v)) for k, v in {**BASE, **vals}.items()}, flat=flat, z_grid=z, model_name=model)


def E(z, p):
    a = 1.0 + z
    return math.sqrt(p["Omm"] * a ** 3 + p["OmDE"] * a ** (3 * (1 + p["w0"] + p["wa"])) * math.exp(-3 * p["wa"] * z / a)
                     + (1 - p["Omm"] - p["OmDE"]) * a * a)


def integral(f, z):
    """Gauss-Legendre on panels uniform in log(1+z)"""
    if z == 0:
        return 0.0
    x1 = math.log1p(z)
    n = max(2, int(x1 * 4))
    tot = 0.0
    for k in range(n):
        lo, hi = x1 * k / n, x1 * (k + 1) / n
        for t, w in zip(NODES, WEIGHTS):
            a = math.exp((hi - lo) / 2 * t + (hi + lo) / 2)
            tot += w * (hi - lo) / 2 * a * f(a - 1)
    return tot


def distance(z, p):
    return integral(lambda t: 1 / E(t, p), z)


def growth_at(z, p):
    return math.exp(-integral(lambda t: (p["Omm"] * (1 + t) ** 3 / E(t, p) ** 2) ** p["gamma"] / (1 + t), z))


def near(got, want, tol):
    got, want = np.asarray(got, float), np.asarray(want, float)
    return got.shape == want.shape and bool(np.all(np.abs(got - want) <= tol * np.maximum(np.abs(want), 1e-3)))


GRIDS = [np.linspace(0.0, 2.5, 6), np.array([0.001, 3.9, 0.7]), np.array([0.0]), np.array([6.0, 15.0]), np.linspace(0.01, 4, 9)]


def universe(case, ctx, scratch):
    for omm, omk in itertools.product(case["omm"], case["omk"]):
        for g, z in enumerate(GRIDS[:case["grids"]]):
            p = {**BASE, "w0": case["w0"], "wa": case["wa"], "Omm": omm, "OmDE": 1 - omm - omk}
            zmax = float(z.max())
            try:
                ok = min(E(t, p) for t in np.linspace(0, zmax, 200)) > 0.05
            except ValueError:
                ok = False
            if not ok:
                ctx.count("no_expansion")
                continue
            r = [distance(float(t), p) for t in z]
            for h in case["h"]:
                p["h"] = h
                cosmo = universe_of(flat=omk == 0, z=z.copy(), **{k: p[k] for k in ("w0", "wa", "Omm", "OmDE", "h")})
                what = f"w0={case['w0']} wa={case['wa']} Omm={omm} OmK={omk} h={h}, z={z}"
                with ctx.guard("background", what):
                    ctx.step()
                    ctx.state((case["w0"], case["wa"], omm, omk, h, g))
                    e = [E(float(t), p) for t in z]
                    keep = z.copy()
                    ctx.check(near(cosmo.computeDimensionlessHubbleParameter(z), e, 1e-12), "E", what)
                    ctx.check(near(cosmo.computeHubbleParameter(z), [100 * h * x for x in e], 1e-12), "H", what)
                    ctx.check(near(cosmo.computeReciprocalDimensionlessHubbleParameter(z), [1 / x for x in e], 1e-12), "inverse_E", what)
                    ctx.check(near(cosmo.Omega_m_of_z(z), [omm * (1 + t) ** 3 / x ** 2 for t, x in zip(z, e)], 1e-12), "Omega_m", what)
                    ctx.check(near(cosmo.computeDimensionlessComovingDistance(z), r, 1e-7), "r", what)
                    ctx.check(near(cosmo.computeComovingDistance(z), [C_KM_S / (100 * h) * x for x in r], 1e-7), "r_Mpc", what)
                    t = float(z[-1])
                    ctx.check(near(cosmo.computeHubbleParameter(t), 100 * h * e[-1], 1e-12) and near(cosmo.computeComovingDistance(t), C_KM_S / (100 * h) * r[-1], 1e-7),
                              "scalar", f"{what}: at {t}")
                    ctx.check(abs(cosmo.OmK - omk) < 1e-9 and (omk != 0 or cosmo.OmK == 0), "OmK", f"{what}: {cosmo.OmK}")
                    cosmo.growth_factor_z = np.ones(len(z))
                    cosmo.evaluateOverRedshiftGrid()
                    ctx.check(near(cosmo.E_z, e, 1e-12) and near(cosmo.H_z, [100 * h * x for x in e], 1e-12), "grid_H", what)
                    ctx.check(near(cosmo.r_tilde_z, r, 1e-7) and near(cosmo.r_z, [C_KM_S / (100 * h) * x for x in r], 1e-7), "grid_r", what)
                    ctx.check(np.array_equal(z, keep) and np.array_equal(cosmo.z_grid, keep), "grid", what)
                    if h == case["h"][0]:
                        for gamma in case["gamma"]:
                            cosmo.params["gamma"].current_value = gamma
                            p["gamma"] = gamma
                            D = [growth_at(float(t), p) for t in z]
                            ctx.step()
                            ctx.check(near(cosmo.computeGrowthFactor(z), D, 1e-7), "D", f"{what}, gamma {gamma}: {cosmo.computeGrowthFactor(z)} instead of {D}")
                            ctx.check(near(cosmo.computeGrowthFactor(t), D[-1], 1e-7), "D_scalar", what)
                    for name, v in cosmo.cosmo_pars_current.items():
                        ctx.check(getattr(cosmo, name) == v == cosmo.params[name].current_value, "values", f"{what}: {name}")
    ctx.trace()


def limits(case, ctx, scratch):
    from seyfert.cosmology.cosmology import Cosmology, CosmologyError
    w0s = (-1.0, -3.0, 0.0, 0.999, 1.0, 1.001, 2.0)
    was = (0.0, 1.999, -1.999, 2.0, -2.0, 2.5, -3.0)
    for (f0, c0), (fa, ca) in itertools.chain(itertools.product(itertools.product(w0s, w0s), [(0.0, 0.0), (0.5, -0.5)]),
                                              itertools.product([(-1.0, -1.0), (-0.9, -1.1)], itertools.product(was, was))):
        pars = {k: parameter(k, v) for k, v in BASE.items()}
        pars["w0"], pars["wa"] = parameter("w0", c0, f0), parameter("wa", ca, fa)
        bad = f0 >= 1 or c0 >= 1 or abs(fa) >= 2 or abs(ca) >= 2
        for flat in (True, False):
            ctx.state((f0, c0, fa, ca, flat))
            ctx.step()
            what = f"w0 {f0}/{c0} wa {fa}/{ca} flat {flat}"
            if bad:
                ctx.raises(CosmologyError, lambda: Cosmology(params=pars, flat=flat), "accepted", what)
            else:
                with ctx.guard("limits", what):
                    Cosmology(params=pars, flat=flat)
            later = universe_of(flat=flat)
            later.params = pars
            if bad:
                ctx.raises(CosmologyError, later.checkParameters, "accepted_later", what)
            else:
                with ctx.guard("limits_later", what):
                    later.checkParameters()
    pars = {k: parameter(k, v) for k, v in BASE.items()}
    ctx.raises(CosmologyError, lambda: Cosmology(params=pars), "half_given", "parameters without flatness")
    for flat in (True, False):
        ctx.raises(CosmologyError, lambda: Cosmology(flat=flat), "half_given", "flatness without parameters")
    with ctx.guard("empty", "neither"):
        Cosmology()
    ctx.trace()


def flatness(case, ctx, scratch):
    from seyfert.cosmology.cosmology import CosmologyError
    for omm, d, flat in itertools.product([k / 100 for k in range(1, 100)], (0.0, 1e-16, -1e-13, 1e-12, 1e-9, -1e-9, 1e-4, -1e-4, 0.1, -0.3), (True, False)):
        omde = 1 - omm + d
        ctx.state((omm, d, flat))
        ctx.step()
        what = f"Omm {omm} OmDE {omde} flat {flat}"
        if flat and abs(d) > 5e-10:
            ctx.raises(CosmologyError, lambda: universe_of(flat=flat, Omm=omm, OmDE=omde), "curved", what)
        else:
            with ctx.guard("flatness", what):
                c = universe_of(flat=flat, Omm=omm, OmDE=omde)
                ctx.check(abs(c.OmK + d) <= 1e-9 and (abs(d) > 1e-11 or c.OmK == 0), "OmK", f"{what}: {c.OmK}")
    ctx.trace()


def spectrum(z, which=0, tf=False):
    from seyfert.cosmology.power_spectrum import PowerSpectrum
    k = np.logspace(-4, 1, 30 + which)
    D = 1 / (1 + z) ** (0.8 + 0.05 * which) * (1 + 0.03 * np.sin(3 * z))
    ps = PowerSpectrum()
    ps.boltzmann_code = "CAMB"
    ps.z_grid, ps.k_grid = z.copy(), k
    base = 2e4 * (k / 0.02) / (1 + (k / 0.02) ** 2.4)
    # the growth depends on scale, as with massive neutrinos
    ps.lin_p_mm_z_k = base[None, :] * D[:, None] ** 2 * (1 + 0.1 * z[:, None] * (1 - np.exp(-(k[None, :] - k[0]))))
    ps.nonlin_p_mm_z_k = ps.lin_p_mm_z_k * (1 + k[None, :] / (1 + z[:, None]))
    if tf:
        ps.transfer_function = base ** 0.5
    return ps, D


def growth(case, ctx, scratch):
    w = case["which"]
    for z0, n, tf, gamma in itertools.product((0.0, 0.001, 0.5), (2, 5, 12), (False, True), (0.55, 0.0, 0.9)):
        z = np.linspace(z0, 2.0 + w, n)
        ps, D = spectrum(z, w, tf)
        what = f"z from {z0}, {n} points, gamma {gamma}"
        ctx.state((w, z0, n, tf, gamma))
        ctx.step()
        with ctx.guard("growth", what):
            c = universe_of(z=z.copy(), gamma=gamma, w0=-1 + 0.1 * w)
            c.power_spectrum = ps
            lin, nonlin = ps.lin_p_mm_z_k.copy(), ps.nonlin_p_mm_z_k.copy()
            ctx.check(near(ps.getGrowthFromLinearPowerSpectrum(), D / D[0], 1e-12), "from_spectrum", what)
            c.evaluateOverRedshiftGrid()
            ctx.check(near(c.growth_factor_z, D / D[0], 1e-12), "evaluated", what)
            c.rescalePowerSpectrumByComputedGrowth()
            ctx.check(near(ps.lin_p_mm_z_k, lin, 1e-12) and near(ps.nonlin_p_mm_z_k, nonlin, 1e-12), "same_growth", what)
            want = [growth_at(float(t), {**BASE, "w0": -1 + 0.1 * w, "gamma": gamma}) for t in z]
            c.growth_factor_z = c.computeGrowthFactor(z)
            keep = c.growth_factor_z.copy()
            c.rescalePowerSpectrumByComputedGrowth()
            f = (np.array(want) / (D / D[0]))[:, None] ** 2
            ctx.check(near(ps.lin_p_mm_z_k / lin, np.repeat(f, lin.shape[1], axis=1), 1e-6), "rescaled", what)
            ctx.check(near(ps.nonlin_p_mm_z_k / nonlin, np.repeat(f, lin.shape[1], axis=1), 1e-6), "rescaled_nonlinear", what)
            ctx.check(np.array_equal(c.growth_factor_z, keep), "kept", what)
            ctx.check(np.array_equal(c.k_grid, ps.k_grid) and np.array_equal(ps.z_grid, z), "grids", what)
            if tf:
                ctx.check(c.transfer_function_k is ps.transfer_function or np.array_equal(c.transfer_function_k, ps.transfer_function), "transfer", what)
    ctx.raises(ValueError, lambda: universe_of().evaluateOverRedshiftGrid(), "no_grid", "evaluated without a grid")
    ctx.trace()


START = [(True, "CPL", {}), (False, "CPL", {"OmDE": 0.6, "w0": -1.1}), (False, "other", {"wa": -0.7, "Omm": 0.4})]
OPS = ["evaluate", "w0", "h", "growth", "rescale", "clear", "reopen", "bare"]
Z = np.linspace(0.0, 2.5, 5)


class Memo(dict):
    def get_for(self, kind, p):
        k = (kind, tuple(sorted(p.items())))
        if k not in self:
            f = {"E": E, "r": distance, "D": growth_at}[kind]
            self[k] = np.array([f(float(t), p) for t in Z])
        return self[k]


MEMO = Memo()


def history(case, ctx, scratch):
    from seyfert.cosmology.cosmology import Cosmology
    flat, model, vals = START[case["start"]]
    count = itertools.count()
    ps0, D0 = spectrum(Z, case["start"], tf=case["start"] == 1)
    for rest in itertools.product(OPS, repeat=case["depth"] - 1):
        ops = (case["first"],) + rest
        c = universe_of(flat, Z.copy(), model, **vals)
        ps, _ = spectrum(Z, case["start"], tf=case["start"] == 1)
        c.power_spectrum = ps
        p = {**BASE, **vals}
        # what the object holds: the values E, r, D were computed from; the factor the spectra carry
        e = r = d = None
        factor, spectra = np.ones(len(Z)), True
        what = f"start {case['start']}: {' '.join(ops)}"
        with ctx.guard("history", what):
            for op in ops:
                ctx.step()
                if op == "evaluate":
                    if d is None and not spectra:
                        continue
                    c.evaluateOverRedshiftGrid()
                    e = MEMO.get_for("E", p) if e is None else e
                    r = MEMO.get_for("r", p) if r is None else r
                    d = D0 / D0[0] * np.sqrt(factor / factor[0]) if d is None else d
                elif op == "w0":
                    p["w0"] = round(p["w0"] + 0.05, 10)
                    c.params["w0"].current_value = p["w0"]
                elif op == "h":
                    p["h"] = round(p["h"] + 0.03, 10)
                    c.params["h"].current_value = p["h"]
                elif op == "growth":
                    c.growth_factor_z = c.computeGrowthFactor(Z)
                    d = MEMO.get_for("D", p)
                elif op == "rescale":
                    if d is None or not spectra:
                        continue
                    c.rescalePowerSpectrumByComputedGrowth()
                    factor = factor * (d / (D0 / D0[0] * np.sqrt(factor / factor[0]))) ** 2
                elif op == "clear":
                    c.dimensionless_hubble_array = c.dimensionless_comoving_distance_array = c.growth_factor_z = None
                    e = r = d = None
                elif op in ("reopen", "bare"):
                    f = scratch / f"c{next(count)}.h5"
                    root = ("/", "/grp", "/a/b")[case["start"]]
                    c.saveToHDF5(f, root, save_power_spectrum=op == "reopen")
                    new = Cosmology.fromHDF5(f, root, load_power_spectrum=op == "reopen" and spectra)
                    f.unlink()
                    spectra = spectra and op == "reopen"
                    ctx.check(new.params == c.params and new.model_name == model and bool(new.is_flat) == flat, "reopened", f"{what}: {new.params}")
                    c = new
                ctx.state((case["start"], p["w0"], p["h"], e is None, r is None, d is None, tuple(np.round(factor, 6)), spectra))
                for name, got, want in (("E_z", c.E_z, e), ("r_tilde_z", c.r_tilde_z, r), ("growth", c.growth_factor_z, d)):
                    ok = got is None if want is None else got is not None and near(got, want, 1e-6)
                    ctx.check(ok, name, f"{what}: after {op}: {got} instead of {want}")
                if e is not None:
                    ctx.check(near(c.H_z, 100 * p["h"] * e, 1e-6), "H_z", f"{what}: after {op}: {c.H_z}")
                    ctx.check(near(c.r_z, C_KM_S / (100 * p["h"]) * r, 1e-6), "r_z", f"{what}: after {op}: {c.r_z}")
                ctx.check({k: float(v) for k, v in c.cosmo_pars_current.items()} == p, "values", f"{what}: {c.cosmo_pars_current}")
                ctx.check(np.array_equal(c.z_grid, Z), "z_grid", what)
                ctx.check((c.power_spectrum is not None) == spectra, "spectra_there", f"{what}: after {op}")
                if spectra:
                    got = c.power_spectrum
                    for a, b in ((got.lin_p_mm_z_k, ps0.lin_p_mm_z_k), (got.nonlin_p_mm_z_k, ps0.nonlin_p_mm_z_k)):
                        ctx.check(near(a / b, np.repeat(factor[:, None], b.shape[1], axis=1), 1e-6), "spectra", f"{what}: after {op}")
        ctx.trace()

"""Angular power spectra: every choice of probes, options, integration rule and universe, and every history of evaluations."""
import itertools
import numpy as np

PROPERTY = "P12"
LEVEL = "model_checking"
RULE = ("all ordered choices of probes x {intrinsic alignment} x {spectroscopic off-diagonal} x integration rules x bias models "
        "x universes, and all sequences of evaluations over shared densities and parameters; a state is (configuration, "
        "cosmology, nuisance values); each spectrum is compared with the definition of the Limber integral")
BOUNDS = {"quick": "15 probe orders, 9 rules, 2 bias models, 3 universes (pairwise products), 5 further spline settings, sequences of 3 evaluations of 6 models",
          "thorough": "the full product of options for every probe order; sequences of 4"}
LONG = {"GCph": "PhotometricGalaxy", "GCsp": "SpectroscopicGalaxy", "WL": "Lensing"}
ORDERS = [o for r in (1, 2, 3) for o in itertools.permutations(("WL", "GCph", "GCsp"), r)]
RULES = ["simpson"] + [f"newton-cotes_{i}" for i in range(1, 7)] + ["romberg", "quad"]
UNIV = {"flat": dict(flat=True), "curved": dict(flat=False, OmDE=0.6), "cpl": dict(flat=True, w0=-0.8, wa=0.3)}
NEAR = 1.003      # bias displaced by 0.3%: as small as the smallest configured steps
MODELS = [{}, {"Omm": 0.35, "OmDE": 0.65}, {"h": 0.7, "ns": 1.0}, {"aIA": 2.0, "etaIA": -0.3}, {"bggcph1": NEAR}, {"bggcsp0": 0.8, "w0": -0.9}]
GRID = {True: 33, False: 40}
ELLS = {"WL": [(10, 2), (20, 4), (40, 8), (300, 20)], "GCph": [(20, 4), (40, 8), (300, 20), (700, 9)], "GCsp": [(10, 3), (40, 6), (300, 25)]}


def cases(tier):
    full = tier == "thorough"
    for o in ORDERS:
        for ia, off, bias in itertools.product((True, False), (True, False), ("piecewise", "constant")):
            for u in UNIV:
                if full or (u == "flat" or (ia and off)):
                    yield dict(order=o, ia=ia, off=off, bias=bias, univ=u, rules=RULES if full else ["simpson"], nz=33)
    for u in UNIV:
        for rule in RULES:
            for nz in (33, 40, 38, 36):
                if rule != "romberg" or nz == 33:
                    yield dict(order=("GCph", "WL", "GCsp"), ia=True, off=True, bias="piecewise", univ=u, rules=[rule], nz=nz)
    for niz in (False, {"WL": True, "GCph": False, "GCsp": True}):
        yield dict(order=("WL", "GCph", "GCsp"), ia=True, off=False, bias="piecewise", univ="flat", rules=["simpson"], nz=33, niz=niz)
    yield dict(order=("WL", "GCph"), ia=True, off=False, bias="piecewise", univ="flat", rules=["simpson"], nz=33, wl="quad")
    for spline in ((1, 3, 0), (3, 1, 0), (5, 2, 0), (3, 3, 0.25), (1, 5, 1.5)):
        yield dict(order=("WL", "GCph"), ia=True, off=False, bias="piecewise", univ="cpl", rules=["simpson"], nz=33, spline=spline)
    if full:
        yield dict(order=("WL",), ia=False, off=False, bias="piecewise", univ="curved", rules=["simpson"], nz=33, wl="quad")
    for first in range(len(MODELS)):
        yield dict(order=("WL", "GCph", "GCsp"), history=first, depth=4 if full else 3)
    for o in (("GCsp", "GCph"), ("GCph", "GCsp", "WL")):
        yield dict(order=o, history=0, depth=3)
    yield dict(order=("GCsp", "WL", "GCph"), history=4, depth=3, fixed=1)    # no nuisance parameter is free


def world_for(case, root, **kw):
    from vlib.world import World, COSMO
    u = UNIV[case.get("univ", "flat")]
    cosmo = [(n, u.get(n, f), fr, s) for n, f, fr, s in COSMO]
    nb = {"WL": 2, "GCph": 3, "GCsp": 2}
    edges = {"WL": [0.2, 1.0, 2.0], "GCph": [0.1, 0.625, 1.3, 2.2], "GCsp": [0.9, 1.3, 1.8]}
    if case.get("fixed"):
        kw = {"free_nuis": (), "free_bias": (), **kw}
    w = World(root, probes=case["order"], nbins=nb, flat=u["flat"], cosmo=cosmo, ia=case.get("ia", True),
                 offdiag=case.get("off", False), bias_model=case.get("bias", "piecewise"), nz=case.get("nz", 33),
                 niz=case.get("niz", True), cl_method=case.get("rules", ["simpson"])[0], wl_method=case.get("wl", "simpson"),
                 ells=ELLS, edges=edges, **kw)
    w.spline = tuple(case.get("spline", w.spline))
    return w.write()


def values(w, mods):
    p = w.fiducial()
    p.update({k: v for k, v in mods.items() if k in p})
    nuis = {"aIA": 1.72, "cIA": 0.0134, "etaIA": -0.41, "betaIA": 2.17}
    nuis.update({k: v for k, v in mods.items() if k in nuis})
    bias = {}
    for q in w.probes:
        if q != "WL":
            b = w.bias_values(q)
            b.update({k: v * b[k] if v is NEAR else v for k, v in mods.items() if k in b})
            bias[q] = [b[f"bg{q.lower()}{i}"] for i in range(w.nbins[q])]
    return p, nuis, bias


def real(w, fc, dens, mods, method=None):
    """the real evaluation at a model; the parameters are put back afterwards"""
    from seyfert.main import cl_core
    p, _, _ = values(w, mods)
    saved = {n: par.current_value for n, par in fc.phys_pars.items()}
    for k, v in mods.items():
        if k in fc.phys_pars:
            fc.phys_pars[k].current_value = v * fc.phys_pars[k].fiducial if v is NEAR else v
    ac = w.angular_config()
    if method:
        ac["cl_integration_settings"]["cl"] = method
    try:
        return cl_core.compute_cls(w.cosmology(p), fc.phys_pars, dens, fc, ac)
    finally:
        for n, v in saved.items():
            fc.phys_pars[n].current_value = v


def wl_quad_weight(w, p, nuis, n_iz):
    """lensing weight with the efficiency integrated to the end of the input distribution"""
    from scipy.interpolate import InterpolatedUnivariateSpline
    from seyfert.cosmology.redshift_density import RedshiftDensity
    from vlib import limber
    from vlib.world import power
    d = RedshiftDensity()
    w.fill_density(d, "WL")
    h, r = limber.hubble(w.z, p), limber.distance(w.z, p)
    eff = np.zeros((len(d.input_n_iz), len(w.z)))
    knots = np.unique(np.concatenate([w.z, d.input_z_domain]))
    knots = knots[(knots >= w.z[0]) & (knots <= d.input_z_domain[-1])]
    for i in range(len(eff)):
        spl = InterpolatedUnivariateSpline(d.input_z_domain, d.input_n_iz[i], ext="zeros", k=3)
        n_panel, m_panel = [], []
        for a, b in zip(knots[:-1], knots[1:]):
            x = 0.5 * (b - a) * limber._GLX + 0.5 * (a + b)
            q = 0.5 * (b - a) * limber._GLW * spl(x)
            n_panel.append(np.sum(q))
            m_panel.append(np.sum(q / limber.distance(x, p)))
        for k, z in enumerate(w.z):
            s = int(np.searchsorted(knots, z - 1e-12))
            eff[i, k] = sum(n_panel[s:]) - r[k] * sum(m_panel[s:])
    out = 1.5 * p["Omm"] * (1 + w.z) * (100 * p["h"] / limber.C_KM_S) ** 2 * r * eff
    if w.ia:
        lin = power(w.k, w.z, p)
        f = (1 + w.z) ** nuis["etaIA"] * limber.mean_luminosity(w.z) ** nuis["betaIA"]
        out = out - nuis["aIA"] * nuis["cIA"] * f * p["Omm"] * h * n_iz["WL"] / (np.sqrt(lin[:, 0] / lin[0, 0]) * limber.C_KM_S)
    return out


def reference(w, mods, n_iz, method, memo):
    from vlib import limber
    from vlib.world import power
    p, nuis, bias = values(w, mods)
    ukey = (str(sorted(p.items())), len(w.z))
    key = (ukey, str(sorted(nuis.items())), str(sorted(bias.items())), w.ia, w.offdiag, w.bias_model)
    if key not in memo:
        lin = power(w.k, w.z, p)
        wts = {q: limber.weights(w, q, p, bias.get(q), nuis, n_iz[q], lin) for q in w.probes}
        if w.wl_method == "quad":
            wts["WL"] = wl_quad_weight(w, p, nuis, n_iz)
        ells = sorted({e[0] for q in w.probes for e in ELLS[q]})
        memo[key] = (wts, {e: limber.limber_power(w, p, e, ukey) for e in ells},
                     limber.C_KM_S / (limber.hubble(w.z, p) * limber.distance(w.z, p) ** 2))
    wts, pk, geo = memo[key]
    out = {}
    for a, b in itertools.combinations_with_replacement(w.probes, 2):
        ells = [e[0] for e in ELLS[a] if e[0] in [x[0] for x in ELLS[b]]]
        c = np.zeros((len(ells), len(wts[a]), len(wts[b])))
        size = np.zeros_like(c)
        for (l, e), i, j in itertools.product(enumerate(ells), range(c.shape[1]), range(c.shape[2])):
            if a == b == "GCsp" and i != j and not w.offdiag:
                continue
            y = geo * wts[a][i] * wts[b][j] * pk[e]
            c[l, i, j] = limber.cl_integral(y, w.z, method)
            size[l, i, j] = limber.cl_integral(np.abs(y), w.z, method)
        out[a, b] = (np.array(ells, float), np.array([x[1] for x in ELLS[a] if x[0] in ells], float), c, size)
    return out


def compare(ctx, w, got, want, tol, what):
    ctx.eq(set(got.cl_dict), {f"{LONG[a]}_{LONG[b]}" for a, b in want}, "pairs", what)
    for (a, b), (ells, wid, c, size) in want.items():
        cl = got.cl_dict[f"{LONG[a]}_{LONG[b]}"]
        ctx.check(np.array_equal(cl.l_bin_centers, ells) and np.array_equal(cl.l_bin_widths, wid), "multipoles",
                  lambda: f"{what} {a}x{b}: {cl.l_bin_centers} {cl.l_bin_widths} expected {ells} {wid}")
        if cl.c_lij.shape != c.shape:
            ctx.fail("shape", f"{what} {a}x{b}: {cl.c_lij.shape} expected {c.shape}")
            continue
        bad = np.argwhere(~(np.abs(cl.c_lij - c) <= tol * np.abs(c) + 0.1 * tol * size))
        ctx.step(c.size)
        ctx.count("assertions", c.size)
        if len(bad):
            k = tuple(bad[0])
            ctx.fail("spectrum", f"{what} C_{a}x{b}{k}: {cl.c_lij[k]} expected {c[k]} ({len(bad)} of {c.size} differ)")


def run_case(case, ctx):
    from seyfert.main import cl_core
    with ctx.scratch() as d:
        w = world_for(case, d)
        fc = w.forecast_config()
        dens = cl_core.compute_densities(fc.probe_configs, w.z)
        n_iz = {q: dens[LONG[q]].norm_density_iz.copy() for q in w.probes}
        memo = {}
        if "history" in case:
            for tail in itertools.product(range(len(MODELS)), repeat=case["depth"] - 1):
                seq = (case["history"],) + tail
                if len(set(seq)) == 1 and len(seq) > 1 and seq[0] not in (0, 3):
                    continue
                for n, m in enumerate(seq):
                    # only the last step of each prefix not seen before is new behaviour; earlier ones must still be run
                    got = real(w, fc, dens, MODELS[m])
                    if n == len(seq) - 1:
                        compare(ctx, w, got, reference(w, MODELS[m], n_iz, "simpson", memo), 2e-6, f"{case['order']} after {seq}")
                        ctx.check(all(np.array_equal(dens[LONG[q]].norm_density_iz, n_iz[q]) for q in w.probes), "density-altered", f"{seq}")
                    ctx.state(("history", case["order"], seq[:n + 1]))
                ctx.trace()
            ctx.note({"sequence of models": seq, "probes": case["order"]})
            return
        for rule in case["rules"]:
            if rule == "romberg" and case["nz"] != 33:
                continue
            tol = 2e-6
            if case.get("wl") == "quad":
                tol = max(tol, 1e-5)
            got = real(w, fc, dens, {}, rule)
            compare(ctx, w, got, reference(w, {}, n_iz, rule, memo), tol, f"{case} {rule}")
            ctx.state((str({k: v for k, v in case.items() if k != "rules"}), rule))
            ctx.trace()
        ctx.note({"configuration": {k: str(v) for k, v in case.items()}})

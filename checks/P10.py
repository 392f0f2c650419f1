"""SteM derivatives: every deviation pattern of short stencils, every element, against the definition."""
import itertools
import numpy as np

PROPERTY = "P10"
LEVEL = "model_checking"
RULE = ("every pattern of point deviations {none, +5%, -10%} on stencils of 1 to 3 steps (1 and 2 deviating points on the 7 and "
        "11 step stencils) x baseline lines of both signs; a state is (stencil, line, pattern); each derivative is compared "
        "with the definition, element alone, among others, permuted, and through files")
BOUNDS = {"quick": "all 3^3+3^5+3^7 patterns x 6 lines; patterns with at most 2 deviating points for 7 steps x 2 lines; "
                   "misfits of 0.99, 0.999, 1.001 and 1.01% at every point; 1 or 2 curved spectra among 4001",
          "thorough": "5 deviation values on 2 steps, 3 values on 4 steps (3^9), up to 3 deviating points on 7 steps"}
ASSUMPTIONS = ["no point is zero and no relative deviation is within 1e-7 of the 1% threshold (such patterns are skipped)"]
CHUNK = 2
DISPS = {1: [0.05], 2: [0.01, 0.1], 3: [0.00625, 0.025, 0.1], 4: [0.01, 0.02, 0.05, 0.1],
         7: [0.00625, 0.0125, 0.01875, 0.025, 0.0375, 0.05, 0.1],
         11: [0.005 * i for i in range(1, 12)]}
LINES = [(2.0, 1.0), (-2.0, 1.0), (0.3, -1.0), (1e-9, 4e-10), (-1e-22, -4e-23), (5.0, 0.0)]
PARAM = [("Omm", 0.32, 1.0), ("wa", 0.0, 1.0), ("w0", -1.0, 1.0), ("mnu", 0.06, 7.0)]


def cases(tier):
    spec = [(1, "all"), (2, "all"), (3, "all"), (7, "few2"), (11, "few1")]
    if tier == "thorough":
        spec = [(1, "all5"), (2, "all5"), (3, "all"), (4, "all"), (7, "few3"), (11, "few2")]
    for n, kind in spec:
        lines = range(len(LINES)) if n <= 3 else (0, 2)
        for li in lines:
            for pi in range(len(PARAM)) if n <= 2 else ((li + n) % 4,):
                pats = patterns(n, kind)
                size = 3000
                for lo in range(0, len(pats), size):
                    yield {"n": n, "line": li, "param": pi, "kind": kind, "lo": lo, "hi": min(lo + size, len(pats))}
    for n in (1, 2, 3, 11):
        yield {"files": n}
    for n in (2, 3, 7, 11):
        for li in range(len(LINES)):
            yield {"edge": n, "n": n, "line": li, "param": (li + n) % 4}
    for n in (1, 2, 3, 7):
        for size in (999, 4001):
            yield {"rare": n, "n": n, "line": (n + size) % len(LINES), "param": n % 4, "size": size}
    yield {"cross": 1}
    for n in (2, 12):
        yield {"analytic": n}


_P = {}


def patterns(n, kind):
    if (n, kind) not in _P:
        m = 2 * n + 1
        if kind.startswith("all"):
            vals = (1.0, 1.05, 0.9) if kind == "all" else (1.0, 1.05, 0.9, 1.012, 0.98)
            out = list(itertools.product(vals, repeat=m))
        else:
            k = int(kind[-1])
            out = [(1.0,) * m]
            for q in range(1, k + 1):
                for pos in itertools.combinations(range(m), q):
                    for v in itertools.product((1.05, 0.9), repeat=q):
                        p = [1.0] * m
                        for a, b in zip(pos, v):
                            p[a] = b
                        out.append(tuple(p))
        _P[n, kind] = out
    return _P[n, kind]


def fit(x, y):
    n = len(x)
    mx, my = sum(x) / n, sum(y) / n
    sxx = sum((a - mx) ** 2 for a in x)
    s = sum((a - mx) * (b - my) for a, b in zip(x, y)) / sxx
    return s, my - s * mx


def definition(x, y):
    """(slope, borderline): least squares on the widest centred set of points that is linear to 1%, else on three points"""
    x, y = list(x), list(y)
    border = False
    while True:
        s, c = fit(x, y)
        err = max(abs(b - (c + s * a)) / abs(b) for a, b in zip(x, y))
        if abs(err - 0.01) < 1e-7:
            border = True
        if err < 0.01 or len(x) <= 3:
            return s, border
        x, y = x[1:-1], y[1:-1]


def setup(case):
    from seyfert.cosmology.parameter import PhysicalParameter as PP, PhysicalParametersCollection as PPC
    name, fid, sf = PARAM[case["param"]]
    par = PP.createCosmologicalParameter(name=name, fiducial=fid, is_free_parameter=True, stem_factor=sf)
    other = PP.createCosmologicalParameter(name="h", fiducial=0.67, is_free_parameter=True)
    coll = PPC(data_dict={"h": other, name: par}, base_stem_disps=np.array(DISPS[case["n"]]), is_universe_flat=False)
    sgn = fid if fid != 0 else 1.0
    d = DISPS[case["n"]]
    x = [fid - e * sf * sgn for e in reversed(d)] + [fid] + [fid + e * sf * sgn for e in d]
    return par, coll, np.array(x)


def derive(par, coll, data, vectorized, probes=("Lensing", "PhotometricGalaxy")):
    from seyfert.derivatives.differentiator import SteMClDifferentiator
    df = SteMClDifferentiator(probe1=probes[0], probe2=probes[1], param=par, phys_pars=coll, vectorized=vectorized)
    df.c_dvar_lij = data
    return df.doComputeDerivative()


def run_case(case, ctx):
    if "files" in case:
        return run_files(case, ctx)
    if "cross" in case:
        return run_zero(case, ctx)
    if "analytic" in case:
        return run_analytic(case, ctx)
    if "edge" in case:
        return run_edge(case, ctx)
    if "rare" in case:
        return run_rare(case, ctx)
    par, coll, x = setup(case)
    line = line_of(case, x)
    pats = patterns(case["n"], case["kind"])[case["lo"]:case["hi"]]
    ys, want, keep = [], [], []
    for p in pats:
        y = line * np.array(p)
        s, border = definition(x, y)
        ctx.eval()
        if border:
            ctx.count("borderline_skipped")
            continue
        ys.append(y)
        want.append(s)
        keep.append(p)
        ctx.state((case["n"], case["line"], case["param"], p))
    ys, want = np.array(ys).T, np.array(want)
    scale = np.max(np.abs(line)) / (np.max(x) - np.min(x))
    tol = 1e-9 * scale
    m = ys.shape[1]
    perm = (np.arange(m) * 7919) % m if m % 7919 else np.arange(m)[::-1]

    def verdict(got, idx, key):
        bad = np.where(np.abs(got - want[idx]) > tol)[0]
        ctx.step(len(got))
        ctx.trace(len(got))
        ctx.count("assertions", len(got))
        if len(bad):
            b = bad[0]
            ctx.fail(key, f"{case} pattern {keep[idx[b]]}: derivative {got[b]} expected {want[idx[b]]} ({len(bad)} differ)")

    # all together, in one column of multipoles, then spread over bins in another order
    allidx = np.arange(m)
    before = ys.copy()
    data = ys[:, :, None, None].copy()
    keepdata = data.copy()
    verdict(derive(par, coll, data, True)[:, 0, 0], allidx, "vectorized")
    ctx.check(np.array_equal(data, keepdata), "input-mutated", f"{case}")
    assert np.array_equal(before, ys)
    pad = (-m) % 6
    idx = np.concatenate([perm, np.zeros(pad, int)])
    got = derive(par, coll, ys[:, idx].reshape(len(x), len(idx) // 6, 2, 3), True)
    ctx.eq(got.shape, (len(idx) // 6, 2, 3), "shape", f"{case}")
    verdict(got.reshape(-1), idx, "vectorized-permuted")
    # element by element
    sub = allidx if m <= 300 else allidx[::7]
    verdict(derive(par, coll, ys[:, sub][:, :, None, None], False)[:, 0, 0], sub, "scalar")
    for k in (allidx if m <= 300 else allidx[::19]):
        verdict(derive(par, coll, ys[:, k][:, None, None, None], True)[:, 0, 0], np.array([k]), "alone")
    if m:
        ctx.note({"steps": case["n"], "pattern": keep[m // 2], "derivative": float(want[m // 2])})


def line_of(case, x):
    slope, icpt = LINES[case["line"]]
    xf = x[len(x) // 2]
    line = icpt + slope * (x - xf) if icpt else slope * (1.5 + (x - xf))
    if np.min(np.abs(line)) < 1e-3 * np.max(np.abs(line)):
        line = line + np.sign(line[0] or 1) * 0.5 * np.max(np.abs(line))
    return line


def misfit(x, y):
    s, c = fit(list(x), list(y))
    return max(abs(b - (c + s * a)) / abs(b) for a, b in zip(x, y))


def run_edge(case, ctx):
    """one point deviating so that the misfit is just below or just above 1%: the stencil is kept or cut"""
    par, coll, x = setup(case)
    line = line_of(case, x)
    tol = 1e-9 * np.max(np.abs(line)) / (np.max(x) - np.min(x))
    ys, want = [], []
    for pos in range(len(x)):
        for target in (0.0099, 0.00999, 0.01001, 0.0101):
            lo, hi = 0.0, 0.2
            for _ in range(60):
                mid = (lo + hi) / 2
                y = line.copy()
                y[pos] *= 1 + mid
                lo, hi = (mid, hi) if misfit(x, y) < target else (lo, mid)
            y = line.copy()
            y[pos] *= 1 + lo
            w, border = definition(x, y)
            if abs(misfit(x, y) - target) > 1e-8 or border:
                ctx.count("borderline_skipped")
                continue
            ys.append(y)
            want.append(w)
            ctx.state((case["n"], case["line"], "edge", pos, target))
    ys = np.array(ys).T
    for vec in (True, False):
        got = derive(par, coll, ys[:, :, None, None].copy(), vec)[:, 0, 0]
        bad = np.where(np.abs(got - want) > tol)[0]
        ctx.step(len(got))
        ctx.trace()
        ctx.check(not len(bad), "edge", lambda: f"{case} vectorized={vec}: {got[bad[0]]} expected {want[bad[0]]} for {ys[:, bad[0]]}")


def run_rare(case, ctx):
    """one or two spectra that are not linear, among very many that are"""
    par, coll, x = setup(case)
    line = line_of(case, x)
    tol = 1e-9 * np.max(np.abs(line)) / (np.max(x) - np.min(x))
    m = case["size"]
    s0 = definition(x, line)[0]
    for where in ((0,), (m // 2,), (m - 1,), (3, m - 7)):
        ys = np.repeat(line[:, None], m, axis=1)
        want = np.full(m, s0)
        for k, c in enumerate(where):
            ys[k, c] *= 1.05
            ys[-1, c] *= 0.9
            want[c], border = definition(x, ys[:, c])
            assert not border
        got = derive(par, coll, ys.reshape(len(x), m, 1, 1), True)[:, 0, 0]
        bad = np.where(np.abs(got - want) > tol)[0]
        ctx.step(m)
        ctx.trace()
        ctx.state((case["n"], case["line"], "rare", m, where))
        ctx.check(not len(bad), "rare", lambda: f"{case} {where}: element {bad[0]} has {got[bad[0]]} expected {want[bad[0]]}")


def run_files(case, ctx):
    """the spectra of the steps come from job directories of a workspace, the derivatives go to a file and back"""
    from vlib.world import World
    from seyfert.cosmology.c_ells import AngularCoefficient
    from seyfert.derivatives.cl_derivative import ClDerivativeCollector
    from seyfert.utils.workspace import WorkSpace
    n = case["files"]
    pairs = [("Lensing", "Lensing"), ("Lensing", "PhotometricGalaxy"), ("PhotometricGalaxy", "PhotometricGalaxy")]
    nb = {"Lensing": 2, "PhotometricGalaxy": 11 if n == 1 else 3}  # with 11 bins a name is the beginning of another
    ells = np.array([10.0, 20.0, 40.0])
    with ctx.scratch() as d:
        w = World(d, probes=("WL", "GCph"), nbins={"WL": 2, "GCph": nb["PhotometricGalaxy"]}, disps=DISPS[n],
                  ells={"WL": [(10, 2), (20, 4), (40, 8)], "GCph": [(10, 2), (20, 4), (40, 8)]}, free=("h", "Omm", "wa")).write()
        ws = WorkSpace(d / "run")
        ws.run_dir.mkdir()
        fc = w.forecast_config()
        ws.createInputFilesDir({"forecast": w.cfg / "forecast.json"}, phys_pars=fc.phys_pars, input_data_dir=w.data)
        ws.cl_dir.mkdir()
        dvars = ["h", "wa", "aIA", "bggcph1" if n == 1 else "bggcph2", "Omm"] + (["bggcph10"] if n == 1 else [])
        data = {}

        def value(dvar, step, pair):
            a, b = nb[pair[0]], nb[pair[1]]
            fid = fc.phys_pars[dvar].fiducial if dvar != "central" else 0
            eps = DISPS[n][abs(step) - 1] * np.sign(step) if step else 0.0
            dx = eps * (fid if fid != 0 else 1.0)
            arr = np.zeros((len(ells), a, b))
            for l, i, j in np.ndindex(*arr.shape):
                base = 1.0 + 0.3 * l + 0.1 * i + 0.2 * j * (1 if pair[0] != pair[1] else i + 1)
                sl = 0.0 if dvar == "central" else (dvars.index(dvar) + 1) * 0.1 * (1 + l - i + j) * (-1) ** (i + j)
                arr[l, i, j] = (base + sl * dx) * (1 + 0.5 * abs(eps) * (l == 1))
            return arr

        todo = [("central", 0)] + [(v, s) for v in dvars for s in range(-n, n + 1) if s]
        for k, (v, s) in enumerate(sorted(todo, key=lambda t: (t[1] * 7 + 3) % 11)):
            name = f"dvar_{v}_step_" + ("0" if s == 0 else f"{'p' if s > 0 else 'm'}_{abs(s)}")
            (ws.cl_dir / name).mkdir()
            for p in pairs:
                c = AngularCoefficient(probe1=p[0], probe2=p[1])
                c.c_lij, c.l_bin_centers, c.l_bin_widths = value(v, s, p), ells, np.array([2.0, 4.0, 8.0])
                data[v, s, p] = c.c_lij
                c.saveToHDF5(ws.cl_dir / name / "cls.h5", root="cls")
        for dvar in dvars:
            coll = ClDerivativeCollector(dvar=dvar, workspace=ws)
            coll.setUp()
            coll.evaluateDerivatives()
            f = d / f"cl_derivatives_{dvar}.h5"
            coll.writeToFile(f)
            back = ClDerivativeCollector.fromHDF5(f, dvar=dvar)
            ctx.eq(set(coll.dcl_dict), {f"{a}_{b}" for a, b in pairs}, "files-keys", dvar)
            ctx.eq(set(back.dcl_dict), set(coll.dcl_dict), "files-keys", dvar)
            par = fc.phys_pars[dvar]
            sg = par.fiducial if par.fiducial != 0 else 1.0
            x = [par.fiducial + sg * (DISPS[n][abs(s) - 1] * np.sign(s) if s else 0.0) for s in range(-n, n + 1)]
            for p in pairs:
                key = f"{p[0]}_{p[1]}"
                got = coll[key].dc_lij
                stack = [data[dvar, s, p] if s else data["central", 0, p] for s in range(-n, n + 1)]
                zero = par.is_nuisance and par.probe not in p
                for l, i, j in np.ndindex(*stack[0].shape):
                    want, border = (0.0, False) if zero else definition(x, [a[l, i, j] for a in stack])
                    if not border:
                        ctx.check(abs(got[l, i, j] - want) <= 1e-8, "files-derivative",
                                  lambda: f"{case} {dvar} {key} {l, i, j}: {got[l, i, j]} expected {want}")
                    ctx.step()
                ctx.check(np.array_equal(back[key].dc_lij, got) and np.array_equal(back[key].l_bin_centers, ells)
                          and np.array_equal(coll[key].l_bin_centers, ells), "files-roundtrip", f"{dvar} {key}")
                ctx.state(("files", n, dvar, key))
            ctx.trace()


def run_zero(case, ctx):
    """a nuisance parameter of a probe outside the pair: derivative exactly zero"""
    from seyfert.cosmology.c_ells import AngularCoefficient
    from seyfert.cosmology.parameter import PhysicalParameter as PP, PhysicalParametersCollection as PPC
    from seyfert.derivatives.differentiator import SteMClDifferentiator
    P = ["Lensing", "PhotometricGalaxy", "SpectroscopicGalaxy"]
    for owner in P:
        par = PP.createNuisanceParameter(name="bg1", fiducial=1.2, is_free_parameter=True, probe=owner)
        coll = PPC(data_dict={"bg1": par}, base_stem_disps=np.array([0.05]), is_universe_flat=False)
        for a, b in itertools.product(P, repeat=2):
            fid = AngularCoefficient(probe1=a, probe2=b)
            base = np.array([[[1.0, 2.0], [3.0, 4.0]]])
            fid.c_lij = base
            df = SteMClDifferentiator(probe1=a, probe2=b, param=par, phys_pars=coll, vectorized=True)
            df.fiducial_cl = fid
            df.c_dvar_lij = np.stack([base * (1 + s * 0.05) for s in (-1, 0, 1)])
            got = df.computeDerivative()
            want = base / 1.2 if owner in (a, b) else np.zeros(base.shape)
            ctx.check(got.shape == base.shape and np.allclose(got, want, rtol=1e-9, atol=0), "uninvolved-nuisance",
                      f"{owner} {a} {b}: {got}")
            ctx.state(("zero", owner, a, b))
            ctx.step()
    ctx.trace()


def run_analytic(case, ctx):
    """the analytic derivative with respect to a constant bias is exact: dC_ij/db_k = (d_ik + d_jk) C_ij / b_k"""
    from vlib.world import World
    from seyfert.cosmology.cosmology import Cosmology
    from seyfert.derivatives.differentiator import AnalyticClDifferentiator
    from seyfert.main import cl_core
    from seyfert.utils.workspace import WorkSpace
    n = case["analytic"]
    with ctx.scratch() as d:
        w = World(d, probes=("GCph", "GCsp"), nbins={"GCph": n, "GCsp": n}, bias_model="constant", offdiag=True,
                  ells={"GCph": [(10, 2), (20, 4)], "GCsp": [(10, 2), (20, 4)]}).write()
        w.write_pmm(d / "run" / "PowerSpectrum", dvars=[])
        ws = WorkSpace(d / "run")
        fc = w.forecast_config()
        fid = Cosmology.fromHDF5(ws.getPowerSpectrumFile("central", 0))
        dens = cl_core.compute_densities(fc.probe_configs, w.z)
        cls = cl_core.compute_cls(fid, fc.phys_pars, dens, fc, w.angular_config())
        out = ws.cl_dir / "dvar_central_step_0"
        out.mkdir(parents=True)
        cls.saveToHDF5(out / "cls.h5")
        names = {"PhotometricGalaxy": "bggcph", "SpectroscopicGalaxy": "bggcsp"}
        for key, cl in cls.cl_dict.items():
            p1, p2 = key.split("_")
            for probe in {p1, p2}:
                for k in range(n):
                    par = fc.phys_pars[f"{names[probe]}{k}"]
                    df = AnalyticClDifferentiator(probe1=p1, probe2=p2, param=par, workspace=ws)
                    df.loadClData()
                    got = df.computeDerivative()
                    for l, i, j in np.ndindex(*cl.c_lij.shape):
                        want = cl.c_lij[l, i, j] * ((probe == p1 and i == k) + (probe == p2 and j == k)) / par.fiducial
                        if not abs(got[l, i, j] - want) <= 1e-9 * abs(cl.c_lij[l, i, j]):
                            ctx.fail("analytic", f"{case} {key} {par.name} {l, i, j}: {got[l, i, j]} expected {want}")
                            return
                    ctx.state(("analytic", n, key, par.name))
                    ctx.step()
                    ctx.trace()

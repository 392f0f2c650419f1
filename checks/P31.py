"""Files of other codes (IST:F spectra and matrices, SCamera spectra) and of older versions are read as what they say."""
import itertools
import json
import shutil
import numpy as np

PROPERTY = "P31"
LEVEL = "model_checking"
RULE = ("all parameters x displacements x signs x shapes of file names; all row orders x flatness x grids of directories of power spectra; all shapes, "
        "symmetries, bases, pair orders and separators of spectra files; all column orders and names of matrices; all parameter orders, numbers of "
        "biases and fiducials of the change of variables; all versions of stored cosmologies and spectra")
BOUNDS = {"quick": "7 displacements, 8 parameters; shapes up to 3x3, and 10x10, 4x4, 10x4; matrices of up to 5 parameters in all orders; 14 versions",
          "thorough": "shapes up to 5x5; matrices of up to 6 parameters in all orders"}
WORKERS = 8

EPS = {"6p3E-3": 0.00625, "1p3E-2": 0.0125, "1p9E-2": 0.01875, "2p5E-2": 0.025, "3p8E-2": 0.0375, "5p0E-2": 0.05, "1p0E-1": 0.1}
NAMES = {"Ob": "Omb", "Ode": "OmDE", "Om": "Omm", "h": "h", "ns": "ns", "s8": "sigma8", "w0": "w0", "wa": "wa"}
FID = {"Omm": 0.32, "Omb": 0.05, "OmDE": 0.68, "h": 0.67, "ns": 0.96, "sigma8": 0.816, "w0": -1.0, "wa": 0.0}
SC = {"GCph": ("PhotometricGalaxy", "PhotometricGalaxy"), "GCsp": ("SpectroscopicGalaxy", "SpectroscopicGalaxy"),
      "XC": ("PhotometricGalaxy", "SpectroscopicGalaxy")}
SHAPES = {"GCph": (10, 10), "GCsp": (4, 4), "XC": (10, 4)}
OLD = ("1.0.0", "1.0.3", "1.0.4", "1.0.10", "0.9.9", "1.0.99")
NEW = ("1.1.1", "1.2.0", "1.3.8", "1.10.0", "2.0.0", "1.1.10", "10.0.0")


def cases(tier):
    yield {"kind": "names"}
    for order, flat, zero in itertools.product(("down", "up", "k", "mixed", "kdown"), (True, False), (True, False)):
        yield {"kind": "spectra", "order": order, "flat": flat, "zero": zero, "names": ["Om", "h", "wa"] + ([] if flat else ["Ode"]), "eps": ["1p3E-2", "1p0E-1"]}
    for flat in (True, False):
        yield {"kind": "spectra", "order": "down", "flat": flat, "zero": True, "names": [n for n in NAMES if n != "Ode" or not flat], "eps": list(EPS)}
    for k in range(len(NAMES)):
        yield {"kind": "spectra", "order": "down", "flat": False, "zero": False, "names": [list(NAMES)[k]], "eps": list(EPS)[k % 4:]}
    top = 3 if tier == "quick" else 5
    for shape in [*itertools.product(range(1, top + 1), repeat=2), (10, 10), (4, 4), (10, 4), (4, 10), (12, 11)]:
        yield {"kind": "clfile", "shape": shape}
    for i in range(6):
        yield {"kind": "clconv", "i": i}
    yield {"kind": "clbad"}
    for probes in [c for k in (1, 2, 3) for c in itertools.combinations(SC, k)]:
        yield {"kind": "dcls", "probes": probes}
    for n in range(1, (5 if tier == "quick" else 6) + 1):
        yield {"kind": "matrix", "n": n}
    yield {"kind": "codes"}
    for nb, rest in itertools.product(range(4), range(4)):
        yield {"kind": "change", "nb": nb, "rest": rest}
    yield {"kind": "params"}
    for v in OLD + ("1.1.0",) + NEW:
        yield {"kind": "version", "version": v}


def run_case(case, ctx):
    with ctx.scratch() as d:
        globals()[case["kind"]](case, ctx, d)
    ctx.trace()


def parameters(flat, names=FID, nuisance=True):
    from seyfert.cosmology.parameter import PhysicalParameter, PhysicalParametersCollection
    p = PhysicalParametersCollection(base_stem_disps=np.array([0.02, 0.03]), is_universe_flat=flat)
    for n in names:
        p[n] = PhysicalParameter(name=n, kind="CosmologicalParameter", fiducial=FID[n], is_free_parameter=n != "OmDE" or not flat)
    if nuisance:
        p["bgph0"] = PhysicalParameter(name="bgph0", kind="NuisanceParameter", probe="PhotometricGalaxy", fiducial=1.1, is_free_parameter=True)
    return p


def value(name, eps):
    return FID[name] + eps * (FID[name] if FID[name] else 1)


def steps():
    """(sign, text) -> number of the displacement"""
    order = sorted(EPS, key=EPS.get)
    return {(s, t): sg * (i + 1) for i, t in enumerate(order) for s, sg in (("mn", -1), ("pl", 1))}


def names(case, ctx, d):
    from seyfert.file_io.ext_input import ISTInputReader
    r = ISTInputReader(parameters(False))
    st = steps()
    for n, (sign, eps) in itertools.product(NAMES, st):
        for shape in ("pkz-{}_{}_eps_{}.txt", "{}_{}_eps_{}", "CijGG-{}_{}_eps_{}-Nonlin.dat", "x/{}_{}_eps_{}/pkz.txt", "Cij_{}_{}_eps_{}.dat" if n == "h" else "{}_{}_eps_{}.dat"):
            s = shape.format(n, sign, eps)
            if "Cij_" in s:     # a name runs up to the sign
                continue
            with ctx.guard("name", s):
                got = r.parseISTCosmoString(s)
                ctx.eq(tuple(got), (NAMES[n], st[sign, eps]), "name", s)
                ctx.check(abs(r.pars.stem_dict[got[1]] - (1 if sign == "pl" else -1) * EPS[eps]) < 1e-15, "eps", s)
            ctx.state((n, sign, eps, shape))
            ctx.step()
    for s in ("pkz-Fiducial.txt", "CijGG-fid.dat", "central"):
        with ctx.guard("name", s):
            ctx.eq(tuple(r.parseISTCosmoString(s)), ("central", 0), "name", s)
    for s in ("pkz-Om_mn_eps_2p6E-2.txt", "pkz-Oc_mn_eps_2p5E-2.txt"):
        ctx.raises(Exception, lambda: r.parseISTCosmoString(s), "name-unknown", f"{s} has a meaning")


def table(z, k, s, order):
    """rows (z, k, linear, non-linear)"""
    rows = [(a, b) for a in z[::-1] for b in k]
    if order == "up":
        rows = [(a, b) for a in z for b in k]
    elif order == "k":
        rows = [(a, b) for b in k for a in z]
    elif order == "kdown":
        rows = [(a, b) for a in z[::-1] for b in k[::-1]]
    elif order == "mixed":
        n = len(rows)
        rows = [rows[(7 * i + 3) % n] for i in range(n)]
    return [(a, b, s * (1 + 0.3 * a) * b ** 1.5, s * (2 + 0.1 * a * a) * b) for a, b in rows]


def spectra(case, ctx, d):
    from seyfert.cosmology.cosmology import Cosmology
    from seyfert.file_io.ext_input import ISTInputReader
    from seyfert.utils import filesystem_utils as fsu
    z = np.array([0.0, 0.3, 0.9, 1.4, 2.5]) if case["zero"] else np.array([0.001, 0.25, 0.5, 3.0])
    k = np.array([1e-4, 3e-3, 0.2, 1.0, 7.5, 30.0])
    src = d / "src"
    src.mkdir()
    st = steps()
    want, files = {}, {}
    for i, (n, e, sign) in enumerate([(None, None, None)] + list(itertools.product(case["names"], case["eps"], ("mn", "pl")))):
        f = src / "pkz-Fiducial.txt" if n is None else src / n / f"pkz-{n}_{sign}_eps_{e}.txt"
        f.parent.mkdir(exist_ok=True)
        rows = table(z, k, 1.0 + 0.37 * i, case["order"])
        f.write_text("".join(f"   {a!r}  {b!r}\t{p!r}   {q!r}\n" for a, b, p, q in rows))
        files[f] = f.read_bytes()
        key = ("central", 0) if n is None else (NAMES[n], st[sign, e])
        now = dict(FID)
        if n:
            now[NAMES[n]] = value(NAMES[n], EPS[e] * (1 if sign == "pl" else -1))
            if case["flat"] and NAMES[n] == "Omm":
                now["OmDE"] = 1 - now["Omm"]
        want[key] = now, {(a, b): (p, q) for a, b, p, q in rows}
    pars = parameters(case["flat"])
    reader = ISTInputReader(pars)
    what = str(case)
    (d / "out").mkdir()
    with ctx.guard("convert", what):
        reader.convertISTPowerSpectra(src, d / "out" / "PowerSpectrum", case["flat"], "CPL")
        made = list((d / "out").iterdir())
        ctx.check(len(made) == 1 and made[0].name.startswith("PowerSpectrum_"), "where", f"{made}")
        ctx.eq(sorted(x.name for x in made[0].iterdir()), sorted(fsu.get_cosmology_jobdir_name(*key) for key in want), "which", what)
        pos = z[z > 0]
        for key, (now, rows) in want.items():
            c = Cosmology.fromHDF5(made[0] / fsu.get_cosmology_jobdir_name(*key) / "p_mm.h5", load_power_spectrum=True)
            h = now["h"]
            got = {n: p.current_value for n, p in c.params.items()}
            ctx.check(got.keys() == now.keys() and all(abs(got[n] - now[n]) <= 1e-14 * (1 + abs(now[n])) for n in now), "parameters", lambda: f"{what}: {key} {got}")
            ctx.check(all(p.fiducial == FID[n] for n, p in c.params.items()) and bool(c.is_flat) == case["flat"], "cosmology", lambda: f"{what}: {key}")
            p = c.power_spectrum
            ctx.check(np.allclose(c.z_grid, pos, rtol=1e-14, atol=0) and np.allclose(p.z_grid, pos, rtol=1e-14, atol=0), "z", lambda: f"{what}: {key}: {p.z_grid}")
            ctx.check(p.k_grid.shape == k.shape and np.allclose(p.k_grid, k * h, rtol=1e-13, atol=0), "k", lambda: f"{what}: {key}: {p.k_grid} for {k * h}")
            for got, which in ((p.lin_p_mm_z_k, 0), (p.nonlin_p_mm_z_k, 1)):
                exp = np.array([[rows[a, b][which] for b in k] for a in pos]) / h ** 3
                ctx.check(got.shape == exp.shape and np.allclose(got, exp, rtol=1e-12, atol=0), "values", lambda: f"{what}: {key}: {('linear', 'non-linear')[which]} {got[:2]} for {exp[:2]}")
            ctx.state((case["order"], case["flat"], case["zero"], key))
            ctx.step()
    ctx.check(all(p.current_value == p.fiducial for p in pars.values()), "left", "the parameters are left varied")
    ctx.check({f: f.read_bytes() for f in src.rglob("*.txt")} == files, "source", "the source files changed")


def pairs_of(shape, symmetric):
    return [(i, j) for i in range(shape[0]) for j in range(shape[1]) if not symmetric or j >= i]


def write_cl(f, ells, shape, pairs, cl, base=1, sep="_", lines=1, lead="C"):
    f.parent.mkdir(parents=True, exist_ok=True)
    head = [f"{lead}{sep}{i + base}{sep if sep else ''}{j + base}" if lead == "C" else f"{i + base}{sep}{j + base}" for i, j in pairs]
    cut = (len(head) + lines - 1) // lines
    text = "".join(("# l " if n == 0 else "# ") + " ".join(head[n * cut:(n + 1) * cut]) + "\n" for n in range(lines))
    text += "".join(f"{ell!r} " + " ".join(repr(float(cl[n, i, j])) for i, j in pairs) + "\n" for n, ell in enumerate(ells))
    f.write_text(text)


def spectrum(n, shape, symmetric, seed):
    a = np.fromfunction(lambda l, i, j: (1 + seed) * (1 + l) * (3 + i * 1.7 + j * 0.31 + (i - j) ** 2 * 0.01) * (-1) ** (i + j) * 1e-7, (n, *shape))
    return np.tril(a) + np.swapaxes(np.tril(a, -1), 1, 2) if symmetric and shape[0] == shape[1] else a


def clfile(case, ctx, d):
    from seyfert.file_io.ext_input import ISTInputReader
    shape = tuple(case["shape"])
    ells = [10.0, 35.5, 1000.0]
    reader = ISTInputReader()
    for symmetric in (True, False):
        if symmetric and shape[0] != shape[1]:
            continue
        base_pairs = pairs_of(shape, symmetric)
        orders = {"rows": base_pairs, "columns": sorted(base_pairs, key=lambda p: (p[1], p[0])), "back": base_pairs[::-1],
                  "mixed": [base_pairs[(5 * n + 2) % len(base_pairs)] for n in range(len(base_pairs))] if len(base_pairs) % 5 else base_pairs}
        if symmetric:
            orders["lower"] = [(j, i) for i, j in base_pairs]
        cl = spectrum(3, shape, symmetric, 1)
        for (o, pairs), base, (lead, sep), lines in itertools.product(orders.items(), (0, 1), (("C", "_"), ("", "-"), ("", ","), ("C", "")), (1, 2)):
            if not sep and max(shape) + base > 10:
                continue
            f = d / "c.dat"
            write_cl(f, ells, shape, pairs, cl, base, sep, lines, lead)
            what = f"{shape} symmetric {symmetric} {o} from {base} {lead + sep!r} in {lines} lines"
            with ctx.guard("cl", what):
                got_l, got = reader.readSCameraClFile(f if base else str(f), symmetric=symmetric)
                want = cl if shape[0] >= shape[1] else np.swapaxes(cl, 1, 2)
                ctx.check(list(got_l) == ells and got.shape == want.shape and np.array_equal(got, want), "cl", lambda: f"{what}: {got} for {want}")
            ctx.state((shape, symmetric, o, base, lead, sep, lines))
            ctx.step()


CONV = [("central", 0)] + [(n, s) for n in ("Om", "s8", "wa") for s in (("mn", "1p9E-2"), ("pl", "1p9E-2"), ("pl", "1p0E-1"))]


def cl_name(n, s, i):
    return "CijGG-fid.dat" if n == "central" else f"CijGG-{n}_{s[0]}_eps_{s[1]}" + ("-x.dat" if i % 2 else ".dat")


def write_all(src, which, i, cls=None, ells=(10.0, 20.0, 400.0, 3000.0)):
    out = {}
    for seed, (n, s) in enumerate(which):
        for probe, shape in SHAPES.items():
            sym = shape[0] == shape[1]
            cl = spectrum(len(ells), shape, sym, seed * 3 + list(SHAPES).index(probe))
            # the cross spectra of some codes come with the probes exchanged
            turned = probe == "XC" and i % 3 == 2
            pairs = pairs_of(shape, sym) if not turned else [(b, a) for a, b in pairs_of(shape, sym)]
            data = np.swapaxes(cl, 1, 2) if turned else cl
            write_cl(src / probe / cl_name(n, s, i), list(ells), shape, pairs, data, base=i % 2)
            out[n, s, probe] = cl
    return out


def clconv(case, ctx, d):
    from seyfert.cosmology.c_ells import AngularCoefficient, AngularCoefficientsCollector
    from seyfert.file_io.ext_input import ISTInputReader
    from seyfert.utils import filesystem_utils as fsu
    i = case["i"]
    which = CONV[:1 + 3 * (i % 3) + (i > 2)]
    want = write_all(d / "src", which, i)
    st = steps()
    with ctx.guard("convert-cl", str(case)):
        (d / "out").mkdir()
        ISTInputReader(parameters(True)).convertSCameraDerivativesInput(d / "src", d / "out" / "Angular")
        made = list((d / "out").iterdir())
        ctx.check(len(made) == 1 and made[0].name.startswith("Angular_"), "where", f"{made}")
        key = {(n, s): ("central", 0) if n == "central" else (NAMES[n], st[s]) for n, s in which}
        ctx.eq(sorted(x.name for x in made[0].iterdir()), sorted(fsu.get_cosmology_jobdir_name(*k) for k in key.values()), "which", str(case))
        for ns, k in key.items():
            (f,) = (made[0] / fsu.get_cosmology_jobdir_name(*k)).iterdir()
            coll = AngularCoefficientsCollector.fromHDF5(f)
            ctx.eq(len(coll.cl_dict), 3, "cl-keys", f"{list(coll.cl_dict)}")
            for probe, (p1, p2) in SC.items():
                one = AngularCoefficient.fromHDF5(f, p1, p2, root="cls")
                for got in (one, coll.cl_dict[f"{p1}_{p2}"]):
                    ctx.check(np.array_equal(got.c_lij, want[ns + (probe,)]) and list(got.l_bin_centers) == [10.0, 20.0, 400.0, 3000.0], "cl-values",
                              lambda: f"{case} {ns} {probe}: {got.c_lij.shape} {got.c_lij[0]}")
                ctx.state((i, ns, probe))
                ctx.step()


def clbad(case, ctx, d):
    from seyfert.file_io.ext_input import ISTInputReader
    todo = [("missing", ps, None) for k in (1, 2) for ps in itertools.combinations(SC, k)] + [("multipoles", (p,), None) for p in SC]
    for p in SC:
        a, b = SHAPES[p]
        todo += [("shape", (p,), (a + x, b + y)) for x in (-1, 0, 1) for y in (-1, 0, 1) if (x, y) != (0, 0) and (a != b or x == y)]
    for n, (what, probes, shape) in enumerate(todo):
        src = d / f"src{n}"
        write_all(src, CONV[:3], 0)
        for probe in probes:
            f = src / probe / cl_name(*CONV[2], 0)
            sym = SHAPES[probe][0] == SHAPES[probe][1]
            if what == "missing":
                f.unlink()
            elif what == "shape":
                write_cl(f, [10.0, 20.0, 400.0, 3000.0], shape, pairs_of(shape, sym), spectrum(4, shape, sym, 0))
            else:
                write_cl(f, [10.0, 20.0, 3000.0], SHAPES[probe], pairs_of(SHAPES[probe], sym), spectrum(3, SHAPES[probe], sym, 0))
        (d / f"out{n}").mkdir()
        ctx.raises((AssertionError, ValueError), lambda: ISTInputReader(parameters(True)).convertSCameraDerivativesInput(src, d / f"out{n}" / "Angular"),
                   "cl-bad", f"{what} {probes} {shape}: accepted")
        ctx.state((what, probes, shape))
        ctx.step()


def dcls(case, ctx, d):
    from seyfert.file_io.ext_input import ISTInputReader
    pars = list(NAMES)
    for k in (1, 3, 8):
        for start in range(0, 8, k):
            src = d / f"src{k}_{start}"
            want = {}
            for n in (pars + pars)[start:start + k]:
                for probe in case["probes"]:
                    shape = SHAPES[probe]
                    sym = shape[0] == shape[1]
                    cl = spectrum(3, shape, sym, pars.index(n) + 10 * list(SC).index(probe))
                    write_cl(src / probe / f"dCijGGd{n}-x-{n}-Stef.dat", [10.0, 20.0, 30.0], shape, pairs_of(shape, sym), cl, base=(k + start) % 2)
                    want[NAMES[n], "_".join(SC[probe])] = cl
                    (src / probe / "notes.dat").write_text("nothing\n")
            with ctx.guard("dcl", f"{case} {k} {start}"):
                got = ISTInputReader().readSCameraClDerivatives(str(src) if k == 3 else src)
                flat = {(a, b): v for a, x in got.items() for b, v in x.items()}
                ctx.check(flat.keys() == want.keys() and all(np.array_equal(flat[x], want[x]) for x in want), "dcl", lambda: f"{case}: {list(flat)} for {list(want)}")
            ctx.state((case["probes"], k, start))
            ctx.step()


IST = {"WL": "[WL]", "GCph": "[GCph]", "GCsp": "[GCsp(Pk)]", "GCph_WL_XC": "[WL+GCph+XC(WL,GCph)]",
       "GCsp_GCph_WL_XC": "[WL+GCph+XC(WL,GCph)] + [GCsp(Pk)]"}
COLUMNS = {"Omegam": "Omm", "b1": "bgph0", "w0": "w0", "Omegade": "OmDE", "b10": "bgph9", "Omegab": "Omb", "h": "h", "ns": "ns", "sigma8": "sigma8", "wa": "wa",
           "aIA": "aIA", "b2": "bgph1"}


def posdef(n, s=0):
    a = np.fromfunction(lambda i, j: np.sin(1.3 * (i + 1) * (j + 2) + s), (n, n + 3))
    return (a @ a.T + np.eye(n)) * np.outer(10.0 ** (np.arange(n) % 3), 10.0 ** (np.arange(n) % 3))


def matrix(case, ctx, d):
    from seyfert.file_io.ext_input import ISTInputReader
    from seyfert.fisher.fisher_matrix import FisherMatrix
    n = case["n"]
    cols = list(COLUMNS)
    for first in range(0, len(cols), 2):
        base = (cols + cols)[first:first + n]
        F = posdef(n, first)
        for k, order in enumerate(itertools.permutations(range(n))):
            names = [base[i] for i in order]
            M = F[np.ix_(order, order)]
            key = list(IST)[k % len(IST)]
            f = d / f"EuclidISTF_{key}_{('w0wa_flat_optimistic', 'w0wa_non_flat', 'w0wa')[k % 3]}.txt"
            sep = " " if k % 2 else "\t  "
            f.write_text(sep.join(names) + "\n" + "".join(sep.join(repr(float(x)) for x in row) + "\n" for row in M))
            want = {(COLUMNS[a], COLUMNS[b]): M[i, j] for i, a in enumerate(names) for j, b in enumerate(names)}
            with ctx.guard("matrix", f"{names}"):
                name, df = ISTInputReader.readISTFisherMatrixFile(f)
                ctx.eq(name, IST[key], "matrix-name", f.name)
                self_check(ctx, df, want, names)
                cosmo = {COLUMNS[x] for x in names if not x.startswith("b")}
                nuis = {COLUMNS[x] for x in names} - cosmo
                m = FisherMatrix.from_ISTfile(f, name="mine" if k % 2 else None, cosmological_parameters=cosmo, nuisance_parameters=nuis)
                ctx.eq(m.name, "mine" if k % 2 else IST[key], "matrix-name", f.name)
                self_check(ctx, m.matrix, want, names)
                ctx.check(set(m.cosmological_parameters) == cosmo and set(m.nuisance_parameters) == nuis, "matrix-kinds", lambda: f"{names}")
                m = FisherMatrix.from_ISTfile(f)
                ctx.check(set(m.cosmological_parameters) == cosmo | nuis and not m.nuisance_parameters, "matrix-kinds", lambda: f"{names}: by default")
            f.unlink()
            ctx.state((n, first, order))
            ctx.step()
    f = d / "some_matrix.txt"
    f.write_text("h ns\n1.0 0.5\n0.5 2.0\n")
    with ctx.guard("matrix-anonymous", "a file of another name"):
        name, df = ISTInputReader.readISTFisherMatrixFile(f)
        ctx.check(name is None and df.loc["h", "ns"] == 0.5 and df.loc["ns", "ns"] == 2.0, "matrix-name", f"{name}")


def self_check(ctx, df, want, what):
    got = {(a, b): df.loc[a, b] for a in df.index for b in df.columns}
    ctx.check(list(df.index) == list(df.columns) and got.keys() == want.keys() and all(abs(got[k] - want[k]) <= 1e-13 * abs(want[k]) for k in want), "matrix",
              lambda: f"{what}: {df}")


def codes(case, ctx, d):
    from seyfert.utils import ist_comparison as ic
    legend = {"AA": "CosmicFish", "BB": "SEYFERT", "CC": "TotallySAF", "DD": "other"}
    pars = ["Omegam", "h", "b1", "sigma8"]
    ours = [COLUMNS[p] for p in pars]
    for n in (1, 2, 3, 4):
        for chosen in itertools.permutations(legend, n):
            for flat, scenario in itertools.product((True, False), ("optimistic", "pessimistic")):
                root = d / "all"
                mats = {}
                for fl, sc in itertools.product((True, False), ("optimistic", "pessimistic")):
                    sub = root / ("Flat" if fl else "NonFlat") / sc
                    sub.mkdir(parents=True)
                    for c in chosen:
                        F = posdef(4, 3 * list(legend).index(c) + 7 * fl + 11 * (sc == "optimistic"))
                        (sub / f"fisher_matrices_results_baseline_GR_{c}{'-v2' if c == 'BB' else ''}.txt").write_text(
                            " ".join(pars) + "\n" + "".join(" ".join(repr(float(x)) for x in r) + "\n" for r in F))
                        if fl == flat and sc == scenario:
                            mats[legend[c]] = F
                (root / "legend.json").write_text(json.dumps(legend))
                with ctx.guard("codes", f"{chosen} {flat} {scenario}"):
                    got = ic.read_ISTGCphFishers(root if flat else str(root), flat=flat, scenario=scenario)
                    ctx.eq(set(got), set(mats), "codes", f"{chosen}")
                    for c, F in mats.items():
                        self_check(ctx, got[c], {(a, b): F[i, j] for i, a in enumerate(ours) for j, b in enumerate(ours)}, c)
                    errs = ic.compute_errs(got)
                    want = {"marg": {c: dict(zip(ours, np.sqrt(np.diag(np.linalg.inv(F))))) for c, F in mats.items()},
                            "unmarg": {c: dict(zip(ours, 1 / np.sqrt(np.diag(F)))) for c, F in mats.items()}}
                    ctx.check(errs.shape == (2 * n, 4), "errors", f"{errs.shape}")
                    ctx.check(all(abs(errs.loc[(k, c), p] / want[k][c][p] - 1) < 1e-9 for k in want for c in mats for p in ours), "errors", lambda: f"{errs} for {want}")
                    deltas = ic.compute_deltas_errs(errs)
                    ctx.check(deltas.shape == (4 * n, 4), "deltas", f"{deltas.shape}")
                    for ref, fn in (("mean", np.mean), ("median", np.median)):
                        for k, p in itertools.product(want, ours):
                            mid = fn([want[k][c][p] for c in mats])
                            ctx.check(all(abs(deltas.loc[(ref, k, c), p] - 100 * (want[k][c][p] - mid) / mid) < 1e-6 for c in mats), "deltas",
                                      lambda: f"{ref} {k} {p}: {deltas}")
                ctx.state((chosen, flat, scenario))
                ctx.step()
                shutil.rmtree(root)
    root = d / "bad"
    (root / "Flat" / "optimistic").mkdir(parents=True)
    (root / "legend.json").write_text(json.dumps(legend))
    (root / "Flat" / "optimistic" / "fisher_matrices_results_baseline_GR_ZZ.txt").write_text("h\n1\n")
    for call, why in ((lambda: ic.read_ISTGCphFishers(root, True, "optimistic"), "a code which is not in the legend"),
                      (lambda: ic.read_ISTGCphFishers(root, False, "optimistic"), "no directory"),
                      (lambda: ic.read_ISTGCphFishers(root, True, "best"), "no such scenario"),
                      (lambda: ic.read_ISTGCphFishers(root, "Flat", "optimistic"), "flat is not a boolean")):
        ctx.raises(Exception, call, "codes-bad", f"{why}: accepted")


def change(case, ctx, d):
    """b_i -> b_i sigma8, sigma8 dropped, and then b_i sigma8 -> sigma8"""
    import pandas as pd
    from seyfert.utils import ist_comparison as ic
    nb = case["nb"]
    rest = ["Omm", "h", "w0"][:case["rest"]]
    pars = ["sigma8"] + rest + [f"bgph{i}" for i in (9, 0, 1)[:nb]]
    for s, order in enumerate(itertools.permutations(pars)):
        if len(pars) == 7 and s % 60 or len(pars) == 6 and s % 12 or len(pars) == 5 and s % 3:
            continue
        fid = {"sigma8": (0.816, 0.5, 1.25)[s % 3], "Omm": 0.32, "h": 0.67, "w0": -1.0, "bgph9": 1.7, "bgph0": 1.1, "bgph1": (0.9, -0.4)[s % 2]}
        n = len(order)
        F = posdef(n, s)
        f = pd.DataFrame(F, index=order, columns=order)
        before = f.copy()
        # d old / d new and the matrix in the new variables
        J = np.eye(n)
        for i, p in enumerate(order):
            if p.startswith("bg"):
                J[i, i] = 1 / fid["sigma8"]
                J[i, order.index("sigma8")] = -fid[p] / fid["sigma8"]
        new = [f"{p}_sigma8" if p.startswith("bg") else p for p in order]
        G = J.T @ F @ J
        keep = [i for i, p in enumerate(new) if p != "sigma8"]
        final = [p for p in order if not p.startswith("bg")]
        K = np.array([[fid[order[i]] if p == "sigma8" and order[i].startswith("bg") else float(order[i] == p) for p in final] for i in keep]).reshape(len(keep), len(final))
        H = K.T @ G[np.ix_(keep, keep)] @ K
        what = f"{order} {fid}"
        if not keep:
            continue
        with ctx.guard("change", what):
            given = {k: v for k, v in fid.items() if k in order or s % 2}
            for fn, names, want in ((ic.apply_T1_remove_sigma8, [new[i] for i in keep], G[np.ix_(keep, keep)]), (ic.apply_T1_remove_sigma8_then_T2, final, H)):
                got = fn(f, given)
                ctx.check(set(got.index) == set(names) and list(got.index) == list(got.columns), "change-names", lambda: f"{what}: {list(got.index)} for {names}")
                v = got.loc[names, names].to_numpy()
                scale = np.sqrt(np.outer(np.diag(want), np.diag(want))) + np.abs(want) + np.abs(F).max() * 1e-3
                ctx.check(np.all(np.abs(v - want) <= 1e-9 * scale), "change", lambda: f"{what}: {fn.__name__} {v} for {want}")
        ctx.check(f.equals(before), "change-left", "the matrix given was changed")
        ctx.state((order, s % 3, s % 2))
        ctx.step()


def params(case, ctx, d):
    """parameters which are not of the IST are removed, others kept"""
    from seyfert.cosmology.parameter import PhysicalParameter
    from seyfert.file_io.ext_input import ISTInputReader
    extra = ("mnu", "bgph0", "gamma", "bgsp3")
    for k in range(5):
        for more in itertools.combinations(extra, k):
            for where in (0, 4, 8):
                names = list(FID)
                p = parameters(False, names[:where], nuisance=False)
                for m in more:
                    p[m] = PhysicalParameter(name=m, kind="NuisanceParameter" if m.startswith("bg") else "CosmologicalParameter", probe="x", fiducial=1.0, is_free_parameter=True)
                for n in names[where:]:
                    p[n] = PhysicalParameter(name=n, kind="CosmologicalParameter", fiducial=FID[n], is_free_parameter=True)
                r = ISTInputReader(p)
                with ctx.guard("params", f"{more} {where}"):
                    r.checkISTParams()
                    ctx.eq(set(r.pars), set(FID), "params", f"{more} {where}")
                ctx.state((more, where))
    for missing in FID:
        r = ISTInputReader(parameters(False, [n for n in FID if n != missing]))
        ctx.raises(Exception, r.checkISTParams, "params-missing", f"{missing} is missing: accepted")


def version(case, ctx, d):
    import h5py
    from seyfert.cosmology.cosmology import Cosmology
    from seyfert.cosmology.power_spectrum import PowerSpectrum
    from seyfert.file_io import retro_comp as rc
    v = case["version"]
    z, k = np.linspace(0.1, 2.5, 7), np.logspace(-3, 1, 5)
    E, r = 1 + z ** 2, np.log(1 + z)
    lin = np.outer(1 / (1 + z), k)
    f, g = d / "cosmology.h5", d / "cls.h5"
    made = 0
    for transfer, growth in itertools.product((False, True), repeat=2):
        if v in OLD:
            with h5py.File(f, "w") as hf:
                hf["/cosmology/dimensionless_hubble_parameter"] = E
                hf["/cosmology/dimensionless_comoving_distance"] = r
                hf["/cosmology/z_array"] = z
                hf["/power_spectrum/k_array"] = k
                hf["/power_spectrum/p_mm_values/lin_p_mm_z_k"] = lin
                hf["/power_spectrum/p_mm_values/nonlin_p_mm_z_k"] = 2 * lin
                if transfer:
                    hf["transfer_function"] = k ** -0.5
                if growth:
                    hf["growth_factor_z"] = 1 / (1 + z)
        elif v == "1.1.0":
            with h5py.File(f, "w") as hf:
                hf["cosmology/z_grid"] = z
                hf["cosmology/dimensionless_hubble_array"] = E
                hf["cosmology/dimensionless_comoving_distance_array"] = r
                for i, n in enumerate(FID):
                    hf.create_group(f"cosmology/cosmological_parameters/{n}").attrs.update({"fiducial": FID[n], "is_present": n != "OmDE", "current": FID[n] + i * 0.001})
        else:
            c = Cosmology(params=parameters(False).cosmological_parameters, flat=False)
            for i, p in enumerate(c.params.values()):
                p.current_value += i * 0.001 * transfer
            c.z_grid, c.dimensionless_hubble_array, c.dimensionless_comoving_distance_array = z, E, r
            c.power_spectrum = PowerSpectrum()
            c.power_spectrum.z_grid, c.power_spectrum.k_grid = z, k
            c.power_spectrum.lin_p_mm_z_k, c.power_spectrum.nonlin_p_mm_z_k = lin, 2 * lin
            c.saveToHDF5(f)
        for load in (True, False):
            what = f"{v} transfer {transfer} growth {growth} load {load}"
            with ctx.guard("cosmology", what):
                c = rc.read_cosmo_file(f if load else str(f), version=v, load_power_spectrum=load)
                ctx.check(np.array_equal(c.z_grid, z) and np.array_equal(c.dimensionless_hubble_array, E) and
                          np.array_equal(c.dimensionless_comoving_distance_array, r), "cosmology", what)
                ctx.check(np.array_equal(c.E_z, E) and np.array_equal(c.r_tilde_z, r), "cosmology", what)
                if v in OLD or (v in NEW and load):
                    p = c.power_spectrum
                    ctx.check(np.array_equal(p.z_grid, z) and np.array_equal(p.k_grid, k) and np.array_equal(p.lin_p_mm_z_k, lin) and
                              np.array_equal(p.nonlin_p_mm_z_k, 2 * lin), "spectra", what)
                    if v in OLD:
                        ctx.check(p.transfer_function is None if not transfer else np.array_equal(p.transfer_function, k ** -0.5), "transfer", what)
                else:
                    ctx.check(c.power_spectrum is None, "spectra", f"{what}: spectra from nowhere")
                if v not in OLD:
                    add = 1 if v == "1.1.0" else int(transfer)
                    ctx.eq({n: (p.fiducial, p.current_value, bool(p.is_free_parameter)) for n, p in c.params.items()},
                           {n: (FID[n], FID[n] + i * 0.001 * add, v != "1.1.0" or n != "OmDE") for i, n in enumerate(FID)}, "parameters", what)
            ctx.state((v, transfer, growth, load))
            ctx.step()
        f.unlink()
    spectra_file(v, ctx, g)
    derivative_file(v, ctx, g)


def spectra_file(v, ctx, g):
    import h5py
    from seyfert.cosmology.c_ells import AngularCoefficient, AngularCoefficientsCollector
    from seyfert.file_io import retro_comp as rc
    probes = ("Lensing", "PhotometricGalaxy", "SpectroscopicGalaxy", "Void")
    nb = {"Lensing": 3, "PhotometricGalaxy": 2, "SpectroscopicGalaxy": 1, "Void": 4}
    every = list(itertools.combinations_with_replacement(probes, 2))
    ells, widths, z = np.array([10.0, 50.0]), np.array([5.0, 9.0]), np.linspace(0.1, 2, 6)

    def arr(*shape):
        return np.arange(1.0, 1 + np.prod(shape)).reshape(shape) ** 1.5
    for mask in range(1, 2 ** 10, 37 if v not in ("1.0.4", "1.3.8") else 5):
        pairs = [p for i, p in enumerate(every) if mask >> i & 1]
        if v in OLD:
            with h5py.File(g, "w") as hf:
                for p, q in pairs:
                    key = f"{p}_{q}"
                    hf[f"cls/{key}/c_lij"] = arr(2, nb[p], nb[q]) + len(key)
                    hf[f"cls/{key}/l_bin_centers"] = ells
                    hf[f"cls/{key}/l_bin_widths"] = widths
                    hf[f"kernels/{key}/k_ijz"] = arr(nb[p], nb[q], 6) + len(key)
                for p in {x for pq in pairs for x in pq}:
                    hf[f"weight_functions/{p}"] = arr(nb[p], 6) + len(p)
                    hf[f"density_functions/{p}/norm_density_i_z"] = 1 / (arr(nb[p], 6) + len(p))
        else:
            coll = AngularCoefficientsCollector()
            for p, q in pairs:
                c = AngularCoefficient(probe1=p, probe2=q)
                c.c_lij, c.l_bin_centers, c.l_bin_widths = arr(2, nb[p], nb[q]) + len(f"{p}_{q}"), ells, widths
                coll.cl_dict[f"{p}_{q}"] = c
            coll.saveToHDF5(g)
        with ctx.guard("cls", f"{v} {pairs}"):
            coll = rc.read_cls_file(g, version=v)
            ctx.eq(set(coll.cl_dict), {f"{p}_{q}" for p, q in pairs}, "cls", f"{v}")
            for p, q in pairs:
                key = f"{p}_{q}"
                c = coll.cl_dict[key]
                ctx.check((c.probe1, c.probe2) == (p, q) and np.array_equal(c.c_lij, arr(2, nb[p], nb[q]) + len(key)) and np.array_equal(c.l_bin_centers, ells) and
                          np.array_equal(c.l_bin_widths, widths), "cls", lambda: f"{v} {key}")
                if v in OLD:
                    ctx.check(np.array_equal(c.kernel.k_ijz, arr(nb[p], nb[q], 6) + len(key)), "kernels", f"{v} {key}")
                    for w, x in ((c.weight1, p), (c.weight2, q)):
                        ctx.check(np.array_equal(w.w_bin_z, arr(nb[x], 6) + len(x)) and np.array_equal(w.density.norm_density_iz, 1 / (arr(nb[x], 6) + len(x))),
                                  "weights", f"{v} {key} {x}")
        g.unlink()
        ctx.state((v, mask))
        ctx.step()


def derivative_file(v, ctx, g):
    import h5py
    from seyfert.file_io import retro_comp as rc
    keys = ("Lensing_Lensing", "Lensing_Void", "PhotometricGalaxy_SpectroscopicGalaxy")
    for how in itertools.product(("none", "dataset", "group"), repeat=3):
        with h5py.File(g, "w") as hf:
            for i, (k, h) in enumerate(zip(keys, how)):
                if h == "dataset":
                    hf[k] = np.full((2, 3, 1), i + 0.5)
                elif h == "group":
                    hf[f"{k}/dc_lij"] = np.full((2, 3, 1), i + 0.25)
                    hf[f"{k}/l_bin_centers"] = np.ones(2)
        with ctx.guard("derivatives", f"{how}"):
            got = rc.read_dcl_file(g)
            want = {k: i + (0.5 if h == "dataset" else 0.25) for i, (k, h) in enumerate(zip(keys, how)) if h != "none"}
            ctx.check(got.keys() == want.keys() and all(np.array_equal(got[k], np.full((2, 3, 1), want[k])) for k in want), "derivatives", lambda: f"{how}: {got}")
        g.unlink()
        ctx.step()

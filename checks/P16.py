"""Final results: every matrix and combination in each cosmology and treatment of the nuisance parameters."""
import io
import itertools
import json
import zlib

import numpy as np
import pandas as pd

from vlib.core import HarnessError

PROPERTY = "P16"
LEVEL = "model_checking"
RULE = ("all sets of base Fisher matrices that can be present x all combinations `A + B - C` of up to 2 (3) operands x free "
        "parameter sets x {w0_wa_CDM, LCDM} x {marg_before, marg_after, nuis_fixed}, evaluated by create_final_results on a run "
        "directory and compared, file by file and entry by entry, with matrix algebra written independently; all histories of "
        "evaluations, changes of the base matrices, lists and output directories; collections of runs")
BOUNDS = {"quick": "31 sets of base matrices, 4 free parameter sets, combinations of 2 operands (3 with all matrices); histories of 3",
          "thorough": "combinations of 3 operands everywhere, histories of 4"}
WORKERS = 8
CHUNK = 1

ALL = ("Omm", "Omb", "h", "ns", "sigma8", "w0", "wa")
FREE = {"all": ALL, "few": ("Omm", "h"), "dark": ("Omm", "w0", "wa"), "gamma": ALL + ("gamma",)}
MODEL = {"w0_wa_CDM": set(ALL), "LCDM": set(ALL) - {"w0", "wa"}}
FIDUCIAL = dict(Omm=0.32, Omb=0.05, h=0.67, ns=0.96, sigma8=0.816, w0=-1.0, wa=0.0, gamma=0.55)
NUIS = {"[WL]": ("aIA",), "[GCph]": ("b1", "b2"), "[GCsp]": ("b3",), "[GCsp(Pk)]": (),
        "[WL+GCph+XC(WL,GCph)]": ("aIA", "b1", "b2")}
BASE = tuple(NUIS)
OPERANDS = ("[WL]", "[GCph]", "[GCsp]", "[GCsp(Pk)]")


def expressions(n):
    out = []
    for k in range(1, n + 1):
        for names in itertools.product(OPERANDS, repeat=k):
            for ops in itertools.product("+-", repeat=k - 1):
                plus = {names[0]} | {m for m, o in zip(names[1:], ops) if o == "+"}
                if plus & {m for m, o in zip(names[1:], ops) if o == "-"}:
                    continue        # what is left of a matrix after it is taken away is rounding
                out.append(names[0] + "".join(f" {o} {m}" for m, o in zip(names[1:], ops)))
    return out


def cases(tier):
    subsets = [s for k in range(1, 6) for s in itertools.combinations(BASE, k)]
    for free in FREE:
        for s in subsets:
            yield {"kind": "results", "free": free, "base": s, "combs": expressions(2 if tier == "quick" else 3), "seed": 0}
        ex = expressions(3)[len(expressions(2)):]
        if tier == "quick":
            for i in range(0, len(ex), 50):
                yield {"kind": "results", "free": free, "base": BASE, "combs": ex[i:i + 50], "seed": 1}
    for ops in itertools.product(("create", "overwrite", "base", "list", "elsewhere"), repeat=3 if tier == "quick" else 4):
        if ops[0] in ("create", "overwrite"):
            yield {"kind": "history", "ops": ops}
    for order in itertools.permutations(range(3)):
        yield {"kind": "collect", "order": order}
    for free in FREE:
        yield {"kind": "analysis", "free": free}


def run_case(case, ctx):
    with ctx.scratch() as d:
        {"results": results, "history": history, "collect": collect, "analysis": analysis}[case["kind"]](case, ctx, d)


# ---------------------------------------------------------------- reference
class M:
    def __init__(self, names, a, cosmo):
        self.names, self.a, self.cosmo = list(names), np.array(a, float), set(cosmo)

    def take(self, keep):
        i = [k for k, n in enumerate(self.names) if n in keep]
        return M([self.names[k] for k in i], self.a[np.ix_(i, i)], self.cosmo & set(keep))

    def schur(self, keep):
        i = [k for k, n in enumerate(self.names) if n in keep]
        j = [k for k, n in enumerate(self.names) if n not in keep]
        a = self.a
        s = a[np.ix_(i, i)] - (a[np.ix_(i, j)] @ np.linalg.solve(a[np.ix_(j, j)], a[np.ix_(j, i)]) if j else 0)
        return M([self.names[k] for k in i], s, self.cosmo & set(keep))

    def plus(self, o, sign):
        names = self.names + [n for n in o.names if n not in self.names]
        a = np.zeros((len(names),) * 2)
        for m, s in ((self, 1), (o, sign)):
            i = [names.index(n) for n in m.names]
            a[np.ix_(i, i)] += s * m.a
        return M(names, a, self.cosmo | o.cosmo)

    def errors(self):
        inv = np.linalg.inv(self.a)
        with np.errstate(invalid="ignore"):
            e = {n: np.sqrt(inv[k, k]) for k, n in enumerate(self.names) if n in self.cosmo}
            if {"w0", "wa"} <= set(self.names):
                i = [self.names.index("w0"), self.names.index("wa")]
                e["FoM"] = 1 / np.sqrt(np.linalg.det(inv[np.ix_(i, i)]))
        return e


def base_matrix(name, free, seed):
    cosmo = ALL if name == "[GCsp(Pk)]" else FREE[free]
    names = list(cosmo) + list(NUIS[name])
    rng = np.random.default_rng(zlib.crc32(f"{name}{seed}".encode()))
    order = list(rng.permutation(len(names)))
    names = [names[i] for i in order]
    b = rng.normal(size=(len(names), len(names)))
    scale = np.exp(rng.normal(size=len(names)))
    return M(names, (b @ b.T + 2 * np.eye(len(names))) * np.outer(scale, scale) * 10, cosmo)


def reference(base, combs, cosmology, how):
    f = {}
    for n, m in base.items():
        m = m.take((m.cosmo & MODEL[cosmology]) | (set(m.names) - m.cosmo))
        if how == "nuis_fixed":
            m = m.take(m.cosmo)
        elif how == "marg_before":
            m = m.schur(m.cosmo)
        f[n] = m
    for c in combs:
        words = c.split(" ")
        if all(w in f for w in words[::2]):
            r = f[words[0]]
            for o, w in zip(words[1::2], words[2::2]):
                r = r.plus(f[w], 1 if o == "+" else -1)
            f[c] = r
    return f


# ---------------------------------------------------------------- runs
class Run:
    def __init__(self, d, free="all", base=BASE, combs=(), seed=0, name="run", opts=None):
        from seyfert.cosmology.parameter import PhysicalParameter, PhysicalParametersCollection
        from seyfert.utils import filesystem_utils as fsu
        from seyfert.utils.workspace import WorkSpace
        from vlib.world import World
        self.d = d / name
        self.d.mkdir()
        self.free, self.base, self.combs, self.seed = free, tuple(base), list(combs), seed
        cosmo = [(n, FIDUCIAL[n], True, 1.0) for n in FREE[free]]
        cosmo += [(n, f, False, 1.0) for n, f in (("OmDE", 0.68), ("mnu", 0.06), ("gamma", 0.55), *FIDUCIAL.items()) if n not in FREE[free]]
        cosmo = list({c[0]: c for c in cosmo[::-1]}.values())
        w = World(d / f"world_{name}", cosmo=cosmo, free=FREE[free])
        if opts:
            w.write()           # with the input data a forecast configuration asks for
        else:
            w.cfg.mkdir(parents=True)
            w.data.mkdir()
            w.write_configs()
        cfg = json.loads((w.cfg / "forecast.json").read_text())
        cfg["synthetic_opts"].update(opts or {})
        (w.cfg / "forecast.json").write_text(json.dumps(cfg))
        pars = {n: PhysicalParameter.createCosmologicalParameter(name=n, fiducial=f, current_value=f, is_free_parameter=fr, stem_factor=s)
                for n, f, fr, s in cosmo}
        phys = PhysicalParametersCollection(base_stem_disps=np.array([0.01]), is_universe_flat=True)
        phys.update(pars)
        self.ws = WorkSpace(self.d)
        self.ws.createInputFilesDir({"forecast": w.cfg / "forecast.json", "Angular": w.cfg / "angular.json", "Fisher": w.cfg / "fisher.json"},
                                    phys, w.data)
        self.lists = d / "fishers"
        self.lists.mkdir(exist_ok=True)
        if not hasattr(fsu, "fisher_aux_files_dir"):
            raise HarnessError("no fisher_aux_files_dir")
        fsu.fisher_aux_files_dir = lambda: self.lists
        self.write()

    def write(self):
        from seyfert.fisher.fisher_matrix import FisherMatrix
        bd = self.d / "base_fishers"
        bd.mkdir(exist_ok=True)
        for f in bd.glob("*"):
            f.unlink()
        self.m = {n: base_matrix(n, self.free, self.seed) for n in self.base}
        for i, (n, m) in enumerate(self.m.items()):
            FisherMatrix(pd.DataFrame(m.a, index=m.names, columns=m.names), name=n, cosmological_parameters=m.cosmo,
                         nuisance_parameters=set(m.names) - m.cosmo).writeToFile(outfile=bd / f"fisher_{i}.hdf5")
        (self.lists / "a_posteriori_fisher_combs.txt").write_text("# combinations\n\n" + "\n".join(self.combs) + "\n")
        self.base_bytes = {f.name: f.read_bytes() for f in bd.glob("*")}

    def expected(self):
        out = {}
        for c in MODEL:
            for how in ("marg_before", "marg_after", "nuis_fixed"):
                out[c, how] = reference(self.m, self.combs, c, how)
        return out

    def relative(self, cosmology, e):
        """errors over |fiducial| of what the forecast varies"""
        ok = set(FREE[self.free]) & MODEL[cosmology]
        return {p: v / (1 if p == "FoM" else abs(FIDUCIAL[p]) or 1) if p in ok or p == "FoM" else np.nan for p, v in e.items()}


def close(a, b, rtol=1e-7):
    return bool(np.allclose(a, b, rtol=rtol, atol=rtol * 1e-3 * (np.nanmax(np.abs(b)) if np.size(b) else 0), equal_nan=True))


def table_ok(df, want):
    """rows and labelled values; absent means NaN"""
    if sorted(map(str, df.index)) != sorted(want):
        return f"rows {sorted(map(str, df.index))[:6]} expected {sorted(want)[:6]}"
    cols = {p for e in want.values() for p in e}
    for c in set(df.columns) | cols:
        for r in want:
            got = float(df.loc[r, c]) if c in df.columns else np.nan
            w = want[r].get(c, np.nan)
            if not close(got, w, 1e-6):
                return f"{r} {c} is {got} expected {w}"
    return None


def compare(ctx, run, out, exp, what, exact_files=True):
    from seyfert.fisher.fisher_matrix import FisherMatrix
    for (cosmology, how), want in exp.items():
        d = out / cosmology / how
        at = f"{what}: {cosmology} {how}"
        if not ctx.check(d.is_dir(), "files", f"{at}: no directory"):
            continue
        got = {}
        for f in d.glob("fisher_*.hdf5"):
            m = FisherMatrix.fromHDF5(f)
            got[m.name] = m
        miss = [n for n in want if n not in got]
        extra = [n for n in got if n not in want] if exact_files else []
        if not ctx.check(not miss and not extra, "files", lambda: f"{at}: missing {miss[:3]}, extra {extra[:3]}"):
            continue
        for n, w in want.items():
            m = got[n]
            i = list(m.matrix.index)
            ok = sorted(i) == sorted(w.names) and close(m.matrix.loc[w.names, w.names].to_numpy(), w.a, 1e-8)
            ctx.check(ok, "matrix", lambda: f"{at}: {n} has {i} {m.matrix.to_numpy()[:2]} expected {w.names} {w.a[:2]}")
            ctx.check(set(m.cosmological_parameters) == w.cosmo and set(m.nuisance_parameters) == set(w.names) - w.cosmo, "sets",
                      lambda: f"{at}: {n} has sets {m.cosmological_parameters} {m.nuisance_parameters}")
        errs = {n: w.errors() for n, w in want.items()}
        rel = {n: run.relative(cosmology, e) for n, e in errs.items()}
        for pre, tab in (("", errs), ("relative_", rel)):
            files = sorted(f.suffix for f in d.glob(f"{pre}marginalized_errors_*"))
            if ctx.check(files == [".csv", ".xlsx"], "files", f"{at}: tables {files}"):
                for f in d.glob(f"{pre}marginalized_errors_*"):
                    df = pd.read_csv(f, index_col=0) if f.suffix == ".csv" else pd.read_excel(f, index_col=0)
                    bad = table_ok(df, tab)
                    ctx.check(bad is None, "errors", lambda: f"{at}: {f.name}: {bad}")
    now = {f.name: f.read_bytes() for f in (run.d / "base_fishers").glob("*")}
    ctx.check(now == run.base_bytes, "inputs", f"{what}: base matrices changed on disk")


def results(case, ctx, d):
    from seyfert.fisher.final_results_core import create_final_results
    run = Run(d, case["free"], case["base"], case["combs"], case["seed"])
    ctx.state((case["free"], case["base"], len(case["combs"])))
    ctx.trace()
    what = f"free {case['free']}, base {case['base']}"
    with ctx.guard("create", what):
        create_final_results(rundir=run.d, outdir_name="final_results", overwrite=False)
        exp = run.expected()
        ctx.step(sum(len(v) for v in exp.values()))
        compare(ctx, run, run.d / "final_results", exp, what)


def history(case, ctx, d):
    from seyfert.fisher.final_results_core import create_final_results
    run = Run(d, "all", BASE[:3], ["[WL] + [GCph]", "[GCsp] - [WL]"], 0)
    done = {}
    for k, op in enumerate(case["ops"]):
        what = " then ".join(case["ops"][:k + 1])
        ctx.step()
        if op == "base":
            run.seed += 1
            run.base = BASE[:4] if run.seed % 2 else BASE[:3]
            run.write()
            continue
        if op == "list":
            run.combs = ["[GCsp(Pk)] + [WL]", "[WL] + [GCph]"] if len(run.combs) == 2 else ["[GCph] + [WL]", "[GCsp] + [GCph] + [WL]"]
            run.write()
            continue
        name = "elsewhere" if op == "elsewhere" else "final_results"
        out = run.d / name
        before = {str(f): f.read_bytes() for f in out.rglob("*") if f.is_file()}
        try:
            create_final_results(rundir=run.d, outdir_name=name, overwrite=op == "overwrite")
        except FileExistsError:
            clash = before and op != "overwrite"
            ctx.check(clash, "refused", f"{what}: refused for existing files")
            now = {str(f): f.read_bytes() for f in out.rglob("*") if f.is_file()}
            ctx.check(all(now.get(f) == b for f, b in before.items()), "intact", f"{what}: refused, but files have changed")
            continue
        except Exception as e:
            ctx.fail("history", f"{what}: {type(e).__name__}: {e}")
            return
        ctx.check(op == "overwrite" or not before, "refused", f"{what}: evaluated over existing results")
        with ctx.guard("history", what):
            compare(ctx, run, out, run.expected(), what, exact_files=not before)
        done[name] = True
    ctx.state(case["ops"])
    ctx.trace()


def collect(case, ctx, d):
    from seyfert.fisher.final_results_core import create_final_results
    from seyfert.fisher.fisher_analysis import FisherAnalysis
    from seyfert.fisher.results_collector import ResultsCollector
    from vlib.jobs import Shop
    root = d / "runs"
    root.mkdir()
    runs = []
    for i in case["order"]:
        sc, nb = (("optimistic", 4), ("optimistic", 12), ("pessimistic", 4))[i]
        opts = {"scenario": sc, "n_sp_bins": nb, "shot_noise_sp_reduced": False, "gcph_minus_gcsp": False,
                "gcph_only_bins_in_spectro_range": False}
        run = Run(root, "all", BASE[:3 if i == 2 else 4], ["[WL] + [GCph]", "[GCsp(Pk)] + [WL]"], i, name=f"run_{sc}_{nb}", opts=opts)
        run.opts = opts
        create_final_results(rundir=run.d, outdir_name="final_results", overwrite=False)
        runs.append(run)
    ctx.trace()
    ctx.state(case["order"])
    keys = sorted(runs[0].opts)

    def rows(get):
        return sorted((tuple(map(str, (r.opts[k] for k in keys))), n, tuple(sorted(e.items()))) for r in runs for n, e in get(r).items())

    def table(df):
        out = []
        for _, row in df.iterrows():
            e = {c: row[c] for c in df.columns if c not in keys + ["fisher", "index"]}
            out.append((tuple(str(row[k]) for k in keys), row["fisher"], tuple(sorted((k, v) for k, v in e.items() if v == v))))
        return sorted(out)

    def same(a, b):
        return len(a) == len(b) and all(x[:2] == y[:2] and [p for p, _ in x[2]] == [p for p, _ in y[2]] and
                                        close([v for _, v in x[2]], [v for _, v in y[2]], 1e-6) for x, y in zip(a, b))
    out = d / "collected"
    with Shop(d / "shop").open(d):
        err = io.StringIO()
        code = Shop.call(Shop.__new__(Shop2), "collect_results", ["--root_dir", str(root), "--outdir", str(out)], str(d), err)
    ctx.check(code == 0, "collect", lambda: f"collect_results ended with {code}: {err.getvalue()[-500:]}")
    for cosmology in MODEL:
        for how in ("marg_before", "marg_after", "nuis_fixed"):
            at = f"{cosmology} {how}"
            want = rows(lambda r: {n: m.errors() for n, m in r.expected()[cosmology, how].items()})
            rel = rows(lambda r: {n: r.relative(cosmology, m.errors()) for n, m in r.expected()[cosmology, how].items()})
            with ctx.guard("collect", at):
                rc = ResultsCollector()
                rc.loadWorkSpaces(root)
                a = table(rc.buildMarginalizedErrorsTable(cosmology=cosmology, res_subdir_name=how))
                b = table(rc.buildRelativeMarginalizedErrorsTable(cosmology=cosmology, res_subdir_name=how))
                ctx.check(same(a, want), "collect", lambda: f"{at}: table {a[:2]} expected {want[:2]}")
                ctx.check(same(b, rel), "collect", lambda: f"{at}: relative table {b[:2]} expected {rel[:2]}")
                f = out / cosmology / how
                ctx.check(same(table(pd.read_excel(f / "marginalized_errors.xlsx")), want), "collect", f"{at}: collected table")
                ctx.check(same(table(pd.read_excel(f / "relative_marginalized_errors.xlsx")), rel), "collect", f"{at}: collected relative table")
                rc.loadFisherAnalysesPickle(f / "fisher_analyses.pickle")
                for rel_, w in ((False, want), (True, rel)):
                    t = table(rc.getErrorsTableFromAnalysesDataFrame(relative=rel_))
                    ctx.check(same(t, w), "collect", lambda: f"{at}: errors of collected analyses {t[:2]} expected {w[:2]}")
                for r in runs:
                    full = r.expected()[cosmology, how]
                    sub = rc.getFisherAnalysesSubDf({k: r.opts[k] for k in ("n_sp_bins", "scenario")}, sel_fishers=["[WL]", "[WL] + [GCph]"])
                    ctx.eq(len(sub), 1, "collect", f"{at}: analyses of the options of {r.d.name}")
                    e = {n: m.errors() for n, m in full.items() if n in ("[WL]", "[WL] + [GCph]")}
                    bad = table_ok(sub["analysis"][0].marginalized_errors, e)
                    ctx.check(bad is None, "collect", lambda: f"{at}: selection of matrices: {bad}")
                    an = FisherAnalysis.fromRundir(r.d, cosmology=cosmology, res_subdir_name=how)
                    an.evaluateMarginalizedErrors()
                    bad = table_ok(an.marginalized_errors, {n: m.errors() for n, m in full.items()})
                    ctx.check(bad is None, "reload", lambda: f"{at}: errors of the results read back: {bad}")
                    bad = table_ok(an.relative_marginalized_errors, {n: r.relative(cosmology, m.errors()) for n, m in full.items()})
                    ctx.check(bad is None, "reload", lambda: f"{at}: relative errors of the results read back: {bad}")
                four = {r.opts["scenario"]: r for r in runs if r.opts["n_sp_bins"] == 4}

                def source(r, n):
                    return four[r.opts["scenario"]] if "Pk" in n else r
                full = {r.d.name: r.expected()[cosmology, how] for r in runs}
                for rel_ in (False, True):
                    w = rows(lambda r: {n: (lambda q, e: q.relative(cosmology, e) if rel_ else e)(source(r, n), full[source(r, n).d.name][n].errors())
                                        for n in full[r.d.name]})
                    if not rel_:
                        rc.replaceHybridFishersWith4BinsEquivalents()
                    t = table(rc.getErrorsTableFromAnalysesDataFrame(relative=rel_))
                    ctx.check(same(t, w), "hybrid", lambda: f"{at}: errors with the 4 bin hybrid matrices {t} expected {w}")


class Shop2:
    from pathlib import Path
    repo = Path("/repo")


def analysis(case, ctx, d):
    """FisherAnalysis on its own"""
    from seyfert.fisher.final_results_core import create_final_results
    from seyfert.fisher.fisher_analysis import FisherAnalysis, FisherAnalysisError
    from seyfert.fisher.fisher_matrix import FisherMatrix
    free = case["free"]
    base = {n: base_matrix(n, free, 3) for n in BASE if free in ("all",) or n != "[GCsp(Pk)]"}

    def real(n):
        m = base[n]
        return FisherMatrix(pd.DataFrame(m.a, index=m.names, columns=m.names), name=n, cosmological_parameters=m.cosmo,
                            nuisance_parameters=set(m.names) - m.cosmo)
    fid = {n: FIDUCIAL[n] for n in FREE[free]}

    def rel(e):
        return {n: {p: v / (1 if p == "FoM" else abs(FIDUCIAL[p]) or 1) for p, v in x.items()} for n, x in e.items()}
    want = {n: m.errors() for n, m in base.items()}
    for k in range(1, len(base) + 1):
        for names in itertools.combinations(base, k):
            for form in ("dict", "list"):
                ctx.trace()
                ctx.state((free, names, form))
                given = {n: real(n) for n in names}
                with ctx.guard("analysis", f"{form} of {names}"):
                    an = FisherAnalysis(cosmo_pars_fiducial=dict(fid), fisher_matrices=given if form == "dict" else list(given.values()))
                    an.evaluateMarginalizedErrors()
                    w = {n: want[n] for n in names}
                    bad = table_ok(an.marginalized_errors, w) or table_ok(an.relative_marginalized_errors, rel(w))
                    ctx.check(bad is None, "analysis", lambda: f"{form} of {names}: {bad}")
                    ctx.check(list(an) == list(names) and an.fishers_order == list(names), "analysis", f"{form} of {names}: order {list(an)}")
                    for sub in itertools.combinations(names, max(1, k - 1)):
                        for again in (False, True):
                            s = an.getSubsetAnalysis(list(sub), recompute_errs=again)
                            w2 = {n: want[n] for n in sub}
                            bad = table_ok(s.marginalized_errors, w2) or table_ok(s.relative_marginalized_errors, rel(w2))
                            ctx.check(bad is None and sorted(s) == sorted(sub) and s.fishers_order == list(sub), "subset", f"{sub} of {names}: {bad}")
                            ctx.check(list(an) == list(names), "subset", f"selecting {sub} changed the analysis to {list(an)}")
    # marginalising sets of parameters in all matrices, sums of addends
    names = list(base)
    pars = sorted({p for m in base.values() for p in m.names})
    for k in (1, 2):
        for ps in itertools.combinations(pars, k):
            if any(set(m.cosmo) <= set(ps) for m in base.values()):
                continue
            ctx.trace()
            with ctx.guard("marginalise", f"{ps}"):
                an = FisherAnalysis(cosmo_pars_fiducial=dict(fid), fisher_matrices={n: real(n) for n in names})
                an.marginalizeFishers(set(ps))
                for n in names:
                    w = base[n].schur(set(base[n].names) - set(ps))
                    g = an[n].matrix
                    ctx.check(sorted(g.index) == sorted(w.names) and close(g.loc[w.names, w.names].to_numpy(), w.a, 1e-8), "marginalise",
                              lambda: f"{n} over {ps}: {g}")
    with ctx.guard("marginalise", "all nuisance"):
        an = FisherAnalysis(cosmo_pars_fiducial=dict(fid), fisher_matrices={n: real(n) for n in names})
        an.marginalizeFishers("all_nuisance")
        for n in names:
            w = base[n].schur(base[n].cosmo)
            g = an[n].matrix
            ctx.check(sorted(g.index) == sorted(w.names) and close(g.loc[w.names, w.names].to_numpy(), w.a, 1e-8), "marginalise", f"{n}: {g}")
    for k in (1, 2, 3):
        for add in itertools.product(names, repeat=k):
            ctx.trace()
            with ctx.guard("addends", f"{add}"):
                an = FisherAnalysis(cosmo_pars_fiducial=dict(fid))
                an.base_fishers = {n: real(n) for n in names}
                an.evaluateFishersFromAddendsList([list(add), [names[0]]])
                w = base[add[0]]
                for a in add[1:]:
                    w = w.plus(base[a], 1)
                g = an["+".join(add)].matrix
                ctx.check(sorted(g.index) == sorted(w.names) and close(g.loc[w.names, w.names].to_numpy(), w.a), "addends", f"{add}: {g}")
                for n in names:
                    b = an.base_fishers[n].matrix
                    ctx.check(close(b.loc[base[n].names, base[n].names].to_numpy(), base[n].a) and b.shape == base[n].a.shape, "addends",
                              f"{add}: base matrix {n} changed")
                ctx.raises(FisherAnalysisError, lambda: an.evaluateFishersFromAddendsList([list(add) + ["[V]"]]), "addends", "absent addend")
    # ranges and ellipses
    from scipy.special import erfinv
    an = FisherAnalysis(cosmo_pars_fiducial=dict(fid), fisher_matrices={n: real(n) for n in names})
    an.evaluateMarginalizedErrors()
    for n in names:
        for x, y in itertools.permutations(sorted(FREE[free])[:4], 2):
            for cl in (0.5, 0.68, 0.95):
                ctx.eval()
                with ctx.guard("ellipse", f"{n} {x} {y}"):
                    q = np.sqrt(2) * erfinv(cl)
                    lo, hi = an.computeParameterRangeForObsAtCL(x, n, cl)
                    ctx.check(close([lo, hi], [fid[x] - q * want[n][x], fid[x] + q * want[n][x]]), "range", f"{n} {x} {cl}: {lo} {hi}")
                    e = an.computeEllipseInfoDictForObsAndCL(x, y, n, cl)
                    t = np.deg2rad(e["angle"])
                    r = np.array([[np.cos(t), -np.sin(t)], [np.sin(t), np.cos(t)]])
                    got = r @ np.diag([(e["width"] / 2) ** 2, (e["height"] / 2) ** 2]) @ r.T
                    inv = np.linalg.inv(base[n].a)
                    i = [base[n].names.index(x), base[n].names.index(y)]
                    ctx.check(close(got, q ** 2 * inv[np.ix_(i, i)], 1e-6) and tuple(e["xy"]) == (fid[x], fid[y]), "ellipse",
                              lambda: f"{n} {x} {y} {cl}: {e}")

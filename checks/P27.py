"""Selection of run directories by name, and what is collected from the selected ones."""
import itertools
import json
import os
import re
from pathlib import Path

import numpy as np
import pandas as pd

PROPERTY = "P27"
LEVEL = "model_checking"
RULE = ("all trees with every name of an alphabet (conventions, near misses, tags) at the top, below a selected and below a rejected directory, "
        "x recursive x additional patterns x filters x texts to contain x texts not to contain, against a reading of the names character by "
        "character; all sequences of loads of a collector over roots and selections, its error tables and its analyses against the files of the selected "
        "runs; a state is (tree, options) or (history of loads)")
BOUNDS = {"quick": "names of 3 conventions x 2 scenarios x 7 tags + 22 near misses, in 3 places; 2 x 7 x 4 x 5 x 5 options; loads: 2 roots x 12 selections, depth 2; 24 options sets",
          "thorough": "names with 11 tags, 2 x 8 x 5 x 6 x 6 options; loads of depth 3"}
WORKERS = 8

SCEN = ("optimistic", "pessimistic")
TAGS = ("", "_a", "_b", "_a_b", "_gcph_minus_gcsp", "_12_sp_bins_v2.0", "_2021-05-06T10-11-12")
MORE = ("_A", ".a", " a", "_[b]")
MISSES = ("optimistic", "optimistic_4", "optimistic_4_sp_bins", "optimistic__sp_bins_", "optimistic_x_sp_bins_", "xrun_optimistic", "run_optm", "run_",
          "Run_optimistic", "run-optimistic_4_sp_bins_", "_optimistic_4_sp_bins_", "my_pessimistic_12_sp_bins_a", "scenario_optimistic",
          "scenario_optimistic_n_sp_bins_4", "scenario_optimistic__n_sp_bins_", "scenario_optm__n_sp_bins_4", "xscenario_optimistic__n_sp_bins_4",
          "optimistic_4 _sp_bins_", "a", "other", "pessimisti_4_sp_bins_", "scenario__n_sp_bins_4")


def names(tier):
    tags = TAGS + (MORE if tier == "thorough" else ())
    out = []
    for s in SCEN:
        for t in tags:
            out += [f"run_{s}{t}", f"{s}_{4 if s == SCEN[0] else 12}_sp_bins_{t[1:]}", f"scenario_{s}__n_sp_bins_{40 if s == SCEN[0] else 24}{t}"]
    return list(dict.fromkeys(out + list(MISSES)))


def groups_of(n):
    """None, or what the name says by one of the three conventions"""
    for s in SCEN:
        if n.startswith("run_" + s):
            return {"scenario": s}
        if n.startswith(s + "_"):
            rest = n[len(s) + 1:]
            d = rest[:len(rest) - len(rest.lstrip("0123456789"))]
            if d and rest[len(d):].startswith("_sp_bins_"):
                return {"scenario": s, "nbins": d}
        if n.startswith(f"scenario_{s}__n_sp_bins_"):
            rest = n[len(f"scenario_{s}__n_sp_bins_"):]
            d = rest[:len(rest) - len(rest.lstrip("0123456789"))]
            if d:
                return {"scenario": s, "nbins": d}
    return None


PATTERNS = [None, [], [r"_a(?P<more>_12)?(?P<none>z*)"], [r"(?P<tag>[ab])$"], [r"(?P<nbins>[0-9]+)_sp_bins", r"_b"], [r"no such"], [r"(?P<tag>a)", r"(?P<tag>b)"], [r"^(?P<scenario>run|scenario)_"]]
FILTERS = [None, [], [lambda n: len(n) % 2 == 0], [lambda n: "_" in n, lambda n: not n.endswith("b")], [lambda n: False]]
CONT = [None, [], ["minus_gcsp"], ["_a", "_b"], ["sp_bins_"], ["optim"]]
NOTC = [None, [], ["_b"], ["gcph", "2021"], ["run_"], ["e"]]


def options(tier):
    q = tier == "quick"
    return itertools.product((False, True), PATTERNS[:7] if q else PATTERNS, FILTERS[:4] if q else FILTERS, CONT[:5] if q else CONT, NOTC[:5] if q else NOTC)


def wanted(name, pats, filts, cont, notc):
    g = groups_of(name)
    if g is None:
        return None
    for p in pats or []:
        m = re.search(p, name)
        if not m:
            return None
        g.update(m.groupdict())
    if all(f(name) for f in filts or []) and all(c in name for c in cont or []) and not any(c in name for c in notc or []):
        return g
    return None


def cases(tier):
    for i in range(8):
        yield {"kind": "options", "tier": tier, "part": i, "parts": 8}
    for i in range(4):
        yield {"kind": "single", "tier": tier, "part": i, "parts": 4}
    for i in range(4):
        yield {"kind": "loads", "depth": 2 if tier == "quick" else 3, "part": i, "parts": 4}
    for flag in (False, True):
        yield {"kind": "scenario", "flag": flag}


def run_case(case, ctx):
    with ctx.scratch() as d:
        globals()["case_" + case["kind"]](case, ctx, Path(os.path.realpath(d)))


def judge(ctx, got, want, at):
    """want: {absolute path: groups}"""
    if not isinstance(got, dict):
        return ctx.fail("selection", f"{at}: {type(got).__name__}")
    paths = {os.path.realpath(k): dict(v) for k, v in got.items()}
    ctx.check(len(paths) == len(got), "selection", f"{at}: the same directory twice")
    if set(paths) != set(want):
        extra, less = sorted(set(paths) - set(want))[:3], sorted(set(want) - set(paths))[:3]
        return ctx.fail("selection", f"{at}: taken though not asked for {extra}, left out {less}")
    bad = [(k, paths[k], want[k]) for k in want if paths[k] != want[k]]
    ctx.check(not bad, "groups", lambda: f"{at}: {bad[0]}")


def tree(d, ns):
    root = d / "runs"
    made = []
    for where in ("", "run_optimistic_top", "other_top", "run_pessimistic_a/optimistic_12_sp_bins_deep"):
        for n in ns:
            p = root / where / n
            p.mkdir(parents=True, exist_ok=True)
    for n in ("run_optimistic_file", "pessimistic_4_sp_bins_file"):
        (root / n).write_text("")
        (root / "other_top" / n).write_text("")
    for r, dirs, _ in os.walk(root):
        made += [os.path.join(r, x) for x in dirs]
    return root, made


def case_options(case, ctx, d):
    from seyfert.utils.dir_explorer import DirectoryExplorer
    root, made = tree(d, names(case["tier"]))
    top = {p for p in made if os.path.dirname(p) == str(root)}
    os.chdir(d)
    given = [root, str(root), Path("runs"), "runs", "./runs/"]
    for i, (rec, pats, filts, cont, notc) in enumerate(options(case["tier"])):
        if i % case["parts"] != case["part"]:
            continue
        want = {p: g for p in made if (rec or p in top) and (g := wanted(os.path.basename(p), pats, filts, cont, notc)) is not None}
        at = f"recursive={rec} patterns={pats} filters={None if filts is None else len(filts)} containing={cont} not_containing={notc}"
        kw = {k: v for k, v in (("add_patterns", pats), ("add_filters", filts), ("containing", cont), ("not_containing", notc)) if v is not None or i % 3}
        form = given[(i // case["parts"]) % len(given)]
        ctx.state((i, str(form)))
        ctx.trace()
        ctx.step()
        with ctx.guard("selection", at):
            ex = DirectoryExplorer(form)
            judge(ctx, ex.selectDirectories(recursive=rec, **kw), want, at)
            # an explorer is asked again: nothing of the previous question is left
            judge(ctx, ex.selectDirectories(recursive=rec), {p: g for p in made if (rec or p in top) and (g := groups_of(os.path.basename(p))) is not None}, f"after {at}")
            if i % 16 < 2:
                wss = ex.selectWorkspaces(recursive=rec, **kw)
                ctx.check(sorted(os.path.realpath(w.run_dir) for w in wss) == sorted(want), "selection", f"workspaces of {at}")
                ctx.check(all(w.run_metadata == {} for w in wss), "metadata", f"{at}: metadata of runs without")


def case_single(case, ctx, d):
    """each name alone, and the empty tree"""
    from seyfert.utils.dir_explorer import DirectoryExplorer
    ns = names(case["tier"]) + [""]
    for i, n in enumerate(ns):
        if i % case["parts"] != case["part"]:
            continue
        root = d / f"r{i}"
        (root / n).mkdir(parents=True)
        g = groups_of(n) if n else None
        for rec in (False, True):
            for p, cont in itertools.product(PATTERNS, CONT[:3]):
                ctx.state((n, rec, p, cont))
                ctx.trace()
                ctx.step()
                with ctx.guard("selection", n):
                    w = wanted(n, p, None, cont, None) if n else None
                    judge(ctx, DirectoryExplorer(root).selectDirectories(recursive=rec, add_patterns=p, containing=cont),
                          {} if w is None else {str(root / n): w}, f"{n!r} alone, recursive={rec} patterns={p} containing={cont}")
        if g is not None:
            meta = {"run_id": n, "n": i}
            (root / n / "run_metadata.json").write_text(json.dumps(meta))
            with ctx.guard("metadata", n):
                ws, = DirectoryExplorer(root).selectWorkspaces()
                ctx.eq(ws.run_metadata, meta, "metadata", f"metadata of {n}")


# ---------------------------------------------------------------- the collector
RUNS = [("optimistic_4_sp_bins_a", ("optimistic", 4, False, False, False)), ("optimistic_12_sp_bins_b", ("optimistic", 12, False, False, False)),
        ("pessimistic_12_sp_bins_a_b", ("pessimistic", 12, True, False, False)), ("run_pessimistic_40_gcph", ("pessimistic", 40, False, True, True)),
        ("deep/optimistic_24_sp_bins_x", ("optimistic", 24, True, True, False)), ("other/run_optimistic", ("optimistic", 4, True, True, True)),
        ("not_a_run", ("pessimistic", 4, False, False, True))]
OPT = ("scenario", "n_sp_bins", "shot_noise_sp_reduced", "gcph_minus_gcsp", "gcph_only_bins_in_spectro_range")
SEL = [{}, {"recursive": True}, {"containing": ["_a"]}, {"not_containing": ["_b"]}, {"recursive": True, "add_patterns": [r"12"]},
       {"recursive": True, "containing": ["sp_bins"], "not_containing": ["pess"]}, {"add_patterns": [r"_a$", r"^opt"]}, {"recursive": True, "containing": ["run_"]},
       {"recursive": True, "not_containing": ["_a", "_b", "_x"]}, {"containing": ["sp_bins"]}, {"recursive": True, "add_patterns": [r"(4|24)"]}, {"recursive": False, "not_containing": ["zz"]}]
COSMO = ("w0_wa_CDM", "LCDM")
HOW = ("marg_before", "marg_after", "nuis_fixed")


def table_for(root, name, cosmology, how, rel, i):
    rs = np.random.RandomState(i * 100 + COSMO.index(cosmology) * 10 + HOW.index(how) + 50 * rel)
    cols = ["h", "Omm", "Omb"] + (["w0", "wa", "FoM"] if cosmology != "LCDM" else [])
    rows = ["[WL]", "[WL+GCph]", "[GCsp(Pk)] + [WL]"][:2 + i % 2]
    return pd.DataFrame(rs.rand(len(rows), len(cols)), index=rows, columns=cols)


def canon(x):
    return x[0], sorted((n, sorted(m.items())) for n, m in x[1].items()), sorted(x[2].items())


def matrices_for(res, cosmology, i):
    """Fisher matrices of a run, with values of its own"""
    from seyfert.fisher.fisher_matrix import FisherMatrix
    out = {}
    pars = ["h"] + (["w0", "wa"] if cosmology != "LCDM" else [])
    for k, name in enumerate(["[WL]", "[GCph]", "[WL] + [GCsp(Pk)]"][:1 + (i + i // 100) % 3]):
        m = 100.0 * np.eye(len(pars)) + i + 7 * k
        f = FisherMatrix(matrix_df=pd.DataFrame(m, index=pars, columns=pars), name=name, cosmological_parameters=set(pars), nuisance_parameters=set())
        f.writeToFile(outfile=res / f"fisher_{k}.hdf5")
        out[name] = {(a, b): m[x, y] for x, a in enumerate(pars) for y, b in enumerate(pars)}
    return out


def case_loads(case, ctx, d):
    from seyfert.cosmology.parameter import PhysicalParameter, PhysicalParametersCollection
    from seyfert.fisher.results_collector import ResultsCollector
    from seyfert.utils.workspace import WorkSpace
    from vlib.world import World
    w = World(d / "world")
    w.write()
    phys = PhysicalParametersCollection(base_stem_disps=np.array([0.01]), is_universe_flat=True)
    phys.update({n: PhysicalParameter.createCosmologicalParameter(name=n, fiducial=v, current_value=v, is_free_parameter=True) for n, v in (("h", 0.67), ("w0", -1.0), ("wa", 0.0))})
    roots, tables, opts, mats = [], {}, {}, {}
    base_cfg = json.loads((w.cfg / "forecast.json").read_text())
    for r in range(2):
        root = d / f"root{r}"
        roots.append(root)
        for i, (n, o) in enumerate(RUNS if r == 0 else RUNS[::-1][:5]):
            run = root / n
            run.mkdir(parents=True)
            cfg = json.loads(json.dumps(base_cfg))
            cfg["synthetic_opts"] = dict(zip(OPT, o))
            (d / "forecast.json").write_text(json.dumps(cfg))
            WorkSpace(run).createInputFilesDir({"forecast": d / "forecast.json"}, phys, w.data)
            if i != 1:
                (run / "run_metadata.json").write_text(json.dumps({"run_id": n, "root": r}))
            opts[str(run)] = dict(zip(OPT, o))
            for c, h in itertools.product(COSMO, HOW):
                res = run / "final_results" / c / h
                res.mkdir(parents=True)
                for rel in (False, True):
                    t = table_for(root, n, c, h, rel, 10 * r + i)
                    t.index.name = ("fisher", None)[i % 2]
                    t.to_csv(res / f"{'relative_' if rel else ''}marginalized_errors{('', '_table', '_2')[i % 3]}.csv")
                    tables[str(run), c, h, rel] = t
                mats[str(run), c, h] = matrices_for(res, c, 10 * r + i + 100 * COSMO.index(c) + 1000 * HOW.index(h))
    alphabet = list(itertools.product(range(2), range(len(SEL))))

    def chosen(r, s):
        kw = SEL[s]
        out = []
        for p in opts:
            rel = os.path.relpath(p, roots[r])
            if rel.startswith(".."):
                continue
            if not kw.get("recursive") and "/" in rel:
                continue
            if wanted(os.path.basename(p), kw.get("add_patterns"), None, kw.get("containing"), kw.get("not_containing")) is not None:
                out.append(p)
        return out

    def look(rc, r, s, at):
        want = chosen(r, s)
        ctx.check(sorted(os.path.realpath(x.run_dir) for x in rc.ws_list) == sorted(want), "collect", lambda: f"{at}: workspaces {rc.ws_list}")
        for ws in rc.ws_list:
            f = Path(ws.run_dir) / "run_metadata.json"
            ctx.check(ws.run_metadata == (json.loads(f.read_text()) if f.exists() else {}), "metadata", f"{at}: metadata of {ws}")
        if not want:
            return
        for c, h, rel in itertools.product(COSMO, HOW, (False, True)):
            rows = []
            for p in want:
                for fisher, row in tables[p, c, h, rel].iterrows():
                    rows.append((fisher, *(str(opts[p][k]) for k in OPT), tuple(round(row[x], 10) for x in row.index)))
            with ctx.guard("collect", f"{at}: {c} {h}"):
                df = (rc.buildRelativeMarginalizedErrorsTable if rel else rc.buildMarginalizedErrorsTable)(cosmology=c, res_subdir_name=h)
                cols = list(tables[want[0], c, h, rel].columns)
                got = [(x["fisher"], *(str(x[k]) for k in OPT), tuple(round(x[k], 10) for k in cols)) for _, x in df.iterrows()]
                ctx.check(set(df.columns) == {"fisher", *cols, *OPT}, "collect", lambda: f"{at}: columns {list(df.columns)}")
                ctx.check(sorted(got) == sorted(rows), "collect", lambda: f"{at}: {c} {h} relative={rel}: {sorted(set(got) ^ set(rows))[:2]}")
        for c, h in itertools.product(COSMO, HOW):
            with ctx.guard("analyses", f"{at}: {c} {h}"):
                df = rc.buildFisherAnalysesDataFrame(cosmology=c, res_subdir_name=h)
                got = [(tuple(str(x[k]) for k in OPT), {n: {(a, b): float(f.matrix.loc[a, b]) for a in f.matrix.index for b in f.matrix.index} for n, f in x["analysis"].fisher_matrices.items()},
                        {k: str(v) for k, v in x["analysis"].metadata.items()}) for _, x in df.iterrows()]
                exp = [(tuple(str(opts[p][k]) for k in OPT), mats[p, c, h], {k: str(opts[p][k]) for k in OPT}) for p in want]
                ctx.check(sorted(map(repr, map(canon, got))) == sorted(map(repr, map(canon, exp))), "analyses", lambda: f"{at}: {c} {h}: {got[:1]} expected {exp[:1]}")

    def walk(rc, hist):
        for a in alphabet:
            if not hist and alphabet.index(a) % case["parts"] != case["part"]:
                continue
            if len(hist) >= 1 and a == hist[-1]:
                continue
            h = hist + [a]
            ctx.state(h)
            ctx.trace()
            ctx.step()
            at = f"after loading {[(f'root{r}', SEL[s]) for r, s in h]}"
            with ctx.guard("collect", at):
                rc.loadWorkSpaces(roots[a[0]], **SEL[a[1]])
                # tables are looked at for each load alone and for the last of each history
                if len(h) == 1 or (alphabet.index(a) + alphabet.index(h[0])) % 5 == 0:
                    look(rc, *a, at)
                else:
                    ctx.check(sorted(os.path.realpath(x.run_dir) for x in rc.ws_list) == sorted(chosen(*a)), "collect", lambda: f"{at}: workspaces {rc.ws_list}")
                    ctx.check([f.synthetic_opts for f in rc.fcfg_list] == [opts[os.path.realpath(x.run_dir)] for x in rc.ws_list], "collect", f"{at}: configurations")
                ctx.check(os.path.realpath(rc.root_path) == str(roots[a[0]]), "collect", f"{at}: root {rc.root_path}")
                if len(h) < case["depth"]:
                    if len(h) == 1 or alphabet.index(a) % 4 == 0:
                        walk(rc, h)
    walk(ResultsCollector(), [])
    # a results directory with two candidates, or none, is not guessed about
    run = roots[0] / RUNS[0][0] / "final_results" / "LCDM" / "marg_before"
    one, = run.glob("marginalized_errors*.csv")
    for k in range(2):
        if k:
            one.unlink()
            (run / "marginalized_errors_bis.csv").unlink()
        else:
            (run / "marginalized_errors_bis.csv").write_bytes(one.read_bytes())
        rc = ResultsCollector()
        rc.loadWorkSpaces(roots[0])
        ctx.raises(Exception, lambda: rc.buildMarginalizedErrorsTable(cosmology="LCDM", res_subdir_name="marg_before"), "ambiguous",
                   f"{'no' if k else 'two'} error tables in the results directory of a run")


def case_scenario(case, ctx, d):
    """notebooks: the runs of a scenario by number of bins"""
    from seyfert.notebook_helpers.load_helpers import load_workspaces_for_scenario
    short = ("optm", "pess")
    ns = [f"{s}_{n}_sp_bins_{t}" for s in short for n in (4, 12, 40) for t in ("x", "gcph_minus_gcsp")]
    ns += ["optm_24_sp_bins", "xoptm_24_sp_bins_a", "optm__sp_bins_a", "opt_24_sp_bins_a"]
    for k in range(5):
        for pick in itertools.combinations(ns, k) if k < 4 else [ns]:
            keys = [(x[:4], x.split("_")[1], "gcph" in x) for x in pick if x in ns[:12]]
            if len(set(keys)) < len(keys):
                continue
            root = d / "runs"
            root.mkdir()
            for x in pick:
                (root / x).mkdir()
            (root / "optm_99_sp_bins_file").write_text("")
            for s in short:
                ctx.state((pick, s, case["flag"]))
                ctx.trace()
                ctx.step()
                want = {int(x.split("_")[1]): str(root / x) for x in pick if x in ns[:12] and x.startswith(s) and ("gcph" in x) == case["flag"]}
                with ctx.guard("scenario", pick):
                    got = load_workspaces_for_scenario(s, gcph_sub_flag=case["flag"], base_dir=root)
                    ctx.check({k: str(v.run_dir) for k, v in got.items()} == want, "scenario",
                              lambda: f"{s} of {list(pick)}, gcph_sub_flag={case['flag']}: {got} expected {want}")
            for x in root.iterdir():
                x.rmdir() if x.is_dir() else x.unlink()
            root.rmdir()

"""A run directory keeps what the run needs: its own input files, and links to the products of other runs."""
import itertools
import json
import os
from pathlib import Path
import numpy as np

PROPERTY = "P15"
LEVEL = "model_checking"
RULE = ("all assignments of file names to the five inputs, then re-creations of the inputs; all histories of making task "
        "directories, linking external ones and moving the tree, from any working directory, compared after every step "
        "with a map task -> directory; all subsets of job directories for the look-ups")
BOUNDS = {"quick": "names from 3, and those a second file of the same name gets, histories of 3 operations", "thorough": "names from 4, histories of 4 operations"}
WORKERS = 8

ROLES = ("forecast", "PowerSpectrum", "Angular", "Derivative", "Fisher")
TASKS = ROLES[1:]
WHERE = ("direct", "symlink", "relative")


def cases(tier):
    names = ("x.json", "y.json", "params.json") + (("Angular_x.json",) if tier != "quick" else ())
    allnames = list(itertools.product(names, repeat=5))
    if tier == "quick":   # names like those given to a second file of the same name
        allnames += [n for n in itertools.product(("x.json", "Angular_x.json", "Fisher_x.json"), repeat=5) if n[2] == "x.json" or n[4] == "x.json"]
    for i in range(0, len(allnames), 27):
        yield {"kind": "inputs", "names": allnames[i:i + 27]}
    depth = 3 if tier == "quick" else 4
    ops = operations()
    for where in WHERE:
        for first in range(len(ops)):
            yield {"kind": "links", "where": where, "first": first, "depth": depth}
    yield {"kind": "lookup"}


def operations():
    out = [("mkdir", "Angular"), ("mkdir", "PowerSpectrum")]
    for how in ("abs", "rel", "absrel"):
        out += [("link", {"PowerSpectrum": "A"}, True, how), ("link", {"Angular": "A"}, True, how)]
    out += [("link", {"PowerSpectrum": "A"}, True, "via")]
    out += [("link", {"Angular": "A"}, False, "abs"), ("link", {"Angular": "B"}, False, "rel"),
            ("link", {"PowerSpectrum": "B", "Derivative": "A"}, False, "rel"), ("link", {"Fisher": "B"}, False, "abs"),
            ("link", {"PowerSpectrum": "missing"}, False, "abs"), ("link", {"Spectra": "A"}, False, "abs"),
            ("link", {"Angular": "L"}, True, "abs"), ("link", {"Angular": "L", "Fisher": "A"}, True, "rel"),
            ("link", {"PowerSpectrum": "A", "Spectra": "B"}, False, "abs"), ("link", {}, False, "abs"), ("move",), ("chdir",)]
    return out


def run_case(case, ctx):
    cwd = os.getcwd()
    try:
        {"inputs": inputs, "links": links, "lookup": lookup}[case["kind"]](case, ctx)
    finally:
        os.chdir(cwd)


def parameters(h):
    from seyfert.cosmology.parameter import PhysicalParameter, PhysicalParametersCollection
    p = PhysicalParametersCollection(base_stem_disps=np.array([0.01, 0.02]), is_universe_flat=True)
    for n, v in (("h", h), ("Omm", 0.3)):
        p[n] = PhysicalParameter(name=n, kind="CosmologicalParameter", fiducial=v, current_value=v, is_free_parameter=n == "h",
                                 stem_factor=1.0, derivative_method="SteM", units="None")
    return p


def inputs(case, ctx):
    from seyfert.utils.workspace import WorkSpace
    for names in case["names"]:
        with ctx.scratch() as root:
            src = {}
            for i, (role, n) in enumerate(zip(ROLES, names)):
                d = root / f"cfg{i}"
                d.mkdir()
                (d / n).write_text(json.dumps({"tag": role, "n": i}))
                src[role] = d / n
            data = root / "data"
            data.mkdir()
            run = root / "run"
            run.mkdir()

            def verify(run, want, h, data, what):
                ws = WorkSpace(run)
                for role in ROLES:
                    p = ws.getForecastConfigFilePath() if role == "forecast" else ws.getTaskJSONPath(role)
                    got = json.loads(Path(p).read_text())
                    ctx.eq(got, want[role], "inputs", f"{names}, {what}: input of {role}")
                    ctx.check(Path(p).resolve().is_relative_to(run.resolve()), "inputs", f"{role} is outside the run: {p}")
                for t in TASKS:
                    cfg = ws.getTaskJSONConfiguration(t)
                    ctx.check(cfg["tag"] == want[t]["tag"] and type(cfg).__name__ == f"{t}Config", "config", f"{names}: {t}")
                ctx.check(set(ws.getTasksJSONConfigs()) == set(TASKS), "config", "tasks")
                ctx.raises(KeyError, lambda: ws.getTaskJSONPath("Spectra"), "task", "unknown task")
                pars = ws.getParamsCollection()
                ctx.check(list(pars) == ["h", "Omm"] and pars["h"].fiducial == h, "params", f"{names}, {what}: {pars}")
                ctx.check(Path(ws.getInputDataDirPath()).resolve() == data.resolve(), "data", f"{ws.getInputDataDirPath()}")
                ctx.trace()

            want = {r: json.loads(src[r].read_text()) for r in ROLES}
            os.chdir(root)
            rel = names[0] != names[-1]   # half of the cases name their inputs relative to the working directory
            given = {r: str(p.relative_to(root)) if rel else p for r, p in src.items()}
            with ctx.guard("create", f"{names}"):
                WorkSpace(run).createInputFilesDir(given, parameters(0.7), Path("data") if rel else data)
            os.chdir("/")
            verify(run, want, 0.7, data, "created")
            # from its own copies
            ws = WorkSpace(run)
            own = {r: ws.getForecastConfigFilePath() if r == "forecast" else ws.getTaskJSONPath(r) for r in ROLES}
            with ctx.guard("recreate", f"{names}: from the run's own copies"):
                ws.createInputFilesDir(own, parameters(0.6), data)
            verify(run, want, 0.6, data, "created from its own copies")
            # with other contents
            for i, r in enumerate(ROLES):
                want[r] = {"tag": r, "n": 10 + i}
                src[r].write_text(json.dumps(want[r]))
            with ctx.guard("recreate", f"{names}: other contents"):
                ws.createInputFilesDir(src, parameters(0.5), data)
            for p in src.values():
                p.unlink()
            verify(run, want, 0.5, data, "created again, sources deleted")
            (root / "elsewhere").mkdir()
            os.rename(run, root / "elsewhere" / "moved")
            verify(root / "elsewhere" / "moved", want, 0.5, data, "moved")
            ctx.state(names)
            ctx.step(4)
    ctx.note({"names": names})


class Model:
    def __init__(self):
        self.tasks = {t: None for t in TASKS}
        self.delta = None


def links(case, ctx):
    ops = operations()
    for rest in itertools.product(range(len(ops)), repeat=case["depth"] - 1):
        history = [ops[case["first"]]] + [ops[i] for i in rest]
        if sum(o[0] in ("move", "chdir") for o in history) > 1:
            continue
        one_links(case["where"], history, ctx)


def one_links(where, history, ctx):
    from seyfert.utils.workspace import WorkSpace
    with ctx.scratch() as root:
        base = root / "base"
        for e, delta in (("A", True), ("B", False)):
            for t in TASKS:
                d = base / "other" / e / t
                d.mkdir(parents=True)
                (d / "who").write_text(f"{e}/{t}")
            if delta:
                (base / "other" / e / "delta_cls.h5").write_text(f"delta {e}")
        # a run which itself only links the spectra of another one, with delta cls of its own
        (base / "other" / "L").mkdir()
        (base / "other" / "L" / "Angular").symlink_to(os.path.join("..", "A", "Angular"))
        (base / "other" / "L" / "delta_cls.h5").write_text("delta L")
        real = base / "deep" / "er" / "run"
        real.mkdir(parents=True)
        (base / "ln").symlink_to(real.parent)
        (root / "outside").symlink_to(base / "other")
        os.chdir(base)

        def rundir():
            return {"direct": real, "symlink": base / "ln" / "run",
                    "relative": Path(os.path.relpath(real, os.getcwd()))}[where]
        m = Model()
        for op in history:
            ctx.step()
            ws = WorkSpace(rundir())
            if op[0] == "mkdir":
                if m.tasks[op[1]] is None:
                    d = rundir() / op[1]
                    d.mkdir()
                    (d / "who").write_text("own")
                    m.tasks[op[1]] = "own"
            elif op[0] == "move":
                os.chdir(root)
                os.rename(base, root / "base2")
                base = root / "base2"
                real = base / "deep" / "er" / "run"
                (base / "ln").unlink()
                (base / "ln").symlink_to(real.parent)
                (root / "outside").unlink()
                (root / "outside2").symlink_to(base / "other")
                os.chdir(base)
            elif op[0] == "chdir":
                os.chdir(base / "other")
            else:
                _, ext, link_delta, how = op
                given = {}
                for t, e in ext.items():
                    p = (base / "other" if how != "via" else next(root.glob("outside*"))) / e / (t if t in TASKS else "Angular")
                    given[t] = p if how != "rel" else Path(os.path.relpath(p, os.getcwd()))
                kw = {} if how != "absrel" else {"src_relative_to_rundir": True}
                if not link_delta:
                    kw["link_delta_cls"] = False
                before = sorted(os.listdir(real))
                if set(ext) - set(TASKS):
                    ctx.raises(KeyError, lambda: ws.symlinkToExternalDirs(given, **kw), "unknown", f"{op}")
                    ctx.eq(sorted(os.listdir(real)), before, "unknown", "an unknown task changed the run directory")
                elif "missing" in ext.values():
                    if any(m.tasks[t] is None for t in ext):
                        ctx.raises(FileNotFoundError, lambda: ws.symlinkToExternalDirs(given, **kw), "missing", f"{op}")
                        ctx.eq(sorted(os.listdir(real)), before, "missing", "a missing directory was linked")
                    else:
                        with ctx.guard("present", f"{history}"):
                            ws.symlinkToExternalDirs(given, **kw)
                else:
                    with ctx.guard("link", f"{where}: {history}: {op}"):
                        ws.symlinkToExternalDirs(given, **kw)
                    for t, e in ext.items():
                        if m.tasks[t] is None:
                            m.tasks[t] = f"{'A' if e == 'L' else e}/{t}"
                            if t == "Angular" and link_delta:
                                m.delta = f"delta {e}"
            # what the run directory shows now
            ws = WorkSpace(rundir())
            cwd = os.getcwd()
            for t in TASKS:
                d = ws.task_dirs[t]
                got = (d / "who").read_text() if (d / "who").is_file() else None
                ctx.check(got == m.tasks[t] and (got is not None or not os.path.lexists(d)), "tasks",
                          lambda: f"{where}, {history}: after {op}, {t} is {got}, not {m.tasks[t]} "
                                  f"({os.readlink(d) if d.is_symlink() else 'no link'})")
            got = ws.delta_cls_file.read_text() if ws.delta_cls_file.is_file() else None
            ctx.check(got == m.delta and (got is not None or not os.path.lexists(ws.delta_cls_file)), "delta",
                      lambda: f"{where}, {history}: after {op}, delta cls are {got}, not {m.delta}")
            for e in ("A", "B"):
                for t in TASKS:
                    ctx.check((base / "other" / e / t / "who").read_text() == f"{e}/{t}", "source", "a source was changed")
            ctx.state([where, m.tasks, m.delta, cwd == str(base)])
            if ctx.failures:
                return
        ctx.trace()
    ctx.note({"where": where, "history": history})


def lookup(case, ctx):
    from seyfert.utils.workspace import WorkSpace
    jobs = [("central", 0, "dvar_central_step_0"), ("h", 1, "dvar_h_step_p_1"), ("h", -1, "dvar_h_step_m_1"),
            ("Omm", -12, "dvar_Omm_step_m_12"), ("bgph10", 2, "dvar_bgph10_step_p_2")]
    for mask in range(2 ** len(jobs)):
        for stray in (False, True):
            with ctx.scratch() as root:
                ws = WorkSpace(root)
                there = [j for i, j in enumerate(jobs) if mask >> i & 1]
                for d in (ws.pmm_dir, ws.cl_dir, ws.der_dir, ws.fish_elems_dir):
                    d.mkdir()
                    if stray:
                        (d / "notes.txt").write_text("x")
                for v, s, n in there:
                    for d in (ws.pmm_dir, ws.cl_dir):
                        (d / n).mkdir()
                    (ws.pmm_dir / n / "p_mm.h5").write_text(n)
                    if v != "central":
                        (ws.der_dir / v).mkdir(exist_ok=True)
                        (ws.fish_elems_dir / f"{v}__h").mkdir(exist_ok=True)
                ctx.eq(ws.collectPmmVariationParams(), {v for v, _, _ in there}, "collect", f"{there}")
                ctx.eq(ws.collectClVariationParams(), {v for v, _, _ in there if v != "central"}, "collect", f"{there}")
                ctx.eq(ws.collectDerivativeParams(), {v for v, _, _ in there if v != "central"}, "collect", f"{there}")
                ctx.eq(set(map(tuple, ws.collectFisherParamsPairs())), {(v, "h") for v, _, _ in there if v != "central"},
                       "collect", f"{there}")
                ctx.eq(ws.collectClVariationDirectories(), {(v, s): ws.cl_dir / n for v, s, n in there if v != "central"},
                       "collect", f"{there}")
                for v, s, n in there:
                    ctx.check(ws.getPowerSpectrumFile(v, s).read_text() == n, "pmm", n)
                    for k in range(3):
                        if k:
                            (ws.cl_dir / n / f"cl{k}.h5").write_text("x")
                        if stray:
                            (ws.cl_dir / n / "logfile.log").write_text("x")
                        if k == 1:
                            ctx.eq(ws.getClFile(v, s), ws.cl_dir / n / "cl1.h5", "cl", n)
                        else:
                            ctx.raises(Exception, lambda: ws.getClFile(v, s), "cl", f"{k} candidates for {n}")
                want = {}
                for v in sorted({v for v, _, _ in there if v != "central"}):
                    f = ws.der_dir / v / f"cl_derivatives_{v}_WL.h5"
                    f.write_text("x")
                    want[v] = f
                    ctx.eq(ws.getClDerivativeFile(v), f, "derivative", v)
                ctx.eq(ws.collectClDerivativeFiles(), want, "derivative", f"{there}")
                ctx.state([mask, stray])
                ctx.step()
                ctx.trace()
    ctx.note({"jobs": [j[2] for j in there]})

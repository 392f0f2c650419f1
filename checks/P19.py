"""Orchestrated campaigns: every combination of configurations is submitted once, with its own inputs; ini files."""
import io
import itertools
import json
import os
import re
import runpy
from pathlib import Path

from vlib import jobs
from vlib.core import HarnessError
from vlib.world import World

PROPERTY = "P19"
LEVEL = "model_checking"
RULE = ("all numbers of forecast, Fisher and angular configurations and of power spectra x task flags x executions x ways of giving "
        "them, each campaign started by the real orchestrate_run; every run of a campaign failing in turn; all subsets of "
        "external directories; existing run directories given as paths, txt or json; job_submitter (recorded in its place, its "
        "command line read by its own parser). Options of ini files: all task flags and values, against the same options given on the "
        "command line of the real job_submitter")
BOUNDS = {"quick": "1-3 forecast, 1-2 Fisher, 1-2 angular configurations, 0-2 power spectra; 3 run directories",
          "thorough": "up to 4 forecast, 3 Fisher, 3 angular configurations, 3 power spectra"}
WORKERS = 8
CHUNK = 4
FCFG = ("optimistic_12_sp_bins", "optimistic_4_sp_bins_shot_noise_sp_reduced", "pessimistic_40_sp_bins", "optimistic_4_sp_bins")
MIXED = ("optimistic_12_sp_bins", "zeta", "optimistic_4_sp_bins")
PLAIN = ("zeta", "alpha", "alpha_beta", "mid")
FLAGS = {"angular": "-cl", "derivative": "-der", "fisher": "-fish"}


def cases(tier):
    nf, nx, npm = (3, 2, 2) if tier == "quick" else (4, 3, 3)
    subsets = [s for k in (1, 2, 3) for s in itertools.combinations(FLAGS, k)]
    for f, x, c in itertools.product(range(1, nf + 1), range(1, nx + 1), range(1, nx + 1)):
        for flags in subsets:
            for p in range(1, npm + 1) if "angular" in flags else (0,):
                for ex in ("no", "interactive", "batch"):
                    for src in ("config", "list", "txt"):
                        yield {"kind": "new", "f": f, "x": x, "c": c, "p": p, "flags": flags, "ex": ex, "src": src}
    for p, names in itertools.product(range(1, npm + 1), ("PowerSpectrum", "plain")):
        for src in ("config", "list", "txt"):
            for form in ("dir", "txt"):
                if p > 1 and form == "dir":
                    continue
                for f in range(1, nf + 1):
                    yield {"kind": "new", "f": f, "x": 1, "c": 1, "p": p, "flags": ("angular",), "ex": "batch", "src": src, "pnames": names, "pform": form,
                           "plain": True}
    for first in (MIXED, MIXED[1:] + MIXED[:1], MIXED[::-1]):      # not all of the names give a number of bins
        for f, src in itertools.product((2, 3), ("config", "list", "txt")):
            yield {"kind": "new", "f": f, "x": 1, "c": 1, "p": 0, "flags": ("fisher",), "ex": "interactive", "src": src, "names": first}
    for k in range(4):
        for ext in itertools.combinations(("pmm_dir", "cl_dir", "der_dir"), k):
            for opt in ("none", "data", "ini", "flags", "batch"):
                yield {"kind": "new", "f": 2, "x": 1, "c": 1, "p": 0, "flags": ("derivative", "fisher"), "ex": "interactive", "src": "config", "ext": ext,
                       "opt": opt}
    for i in range(8):
        for how in ("none", "made"):
            yield {"kind": "new", "f": 2, "x": 2, "c": 1, "p": 2, "flags": ("angular", "fisher"), "ex": "interactive", "src": "config", "fail": i, "how": how}
    for n in (1, 2, 3):
        for order in itertools.permutations(range(3), n):
            for form in ("list", "txt", "json"):
                for flags in (("fisher",), ("derivative", "fisher"), ("angular",)):
                    for opt in ("none", "data"):
                        yield {"kind": "rundirs", "order": order, "form": form, "flags": flags, "opt": opt}
    tasks = ("powerspectrum", "angular", "derivative", "fisher")
    for k in (1, 2, 3, 4):
        for on in itertools.combinations(tasks, k):
            for way in ("absent", "False", "false"):
                yield {"kind": "ini", "opts": {**{t: "True" for t in on}, **({} if way == "absent" else {t: way for t in tasks if t not in on})}}
    for test, ow in itertools.product(("True", "False", None), repeat=2):
        yield {"kind": "ini", "opts": {k: v for k, v in (("fisher", "true"), ("test", test), ("overwrite_results", ow)) if v}}
    for q, n, m in itertools.product(("long", "medium"), ("1", "4", "16"), ("1024", "16384")):
        yield {"kind": "ini", "batch": True, "opts": {"powerspectrum": "True", "queue": q, "n_cores_per_job": n, "memory": m, "angular": "False"}}
    for n in ("0",):
        yield {"kind": "ini", "batch": True, "opts": {"powerspectrum": "True", "n_cores_per_job": n}}
    yield {"kind": "ini", "opts": {"powerspectrum": "True", "no_such_option": "1"}}


def run_case(case, ctx):
    with ctx.scratch() as d:
        {"new": new, "rundirs": rundirs, "ini": ini}[case["kind"]](case, ctx, d)


_parser = {}


def submitter_args(argv, cwd):
    """what job_submitter makes of its command line"""
    if not _parser:
        _parser["p"] = runpy.run_path("/repo/bin/job_submitter", run_name="seen")["specific_program_options"]()
    here = os.getcwd()
    os.chdir(cwd)
    try:
        a = vars(_parser["p"].parse_args(argv))
    finally:
        os.chdir(here)
    return {k: str((Path(cwd) / v).resolve()) if isinstance(v, Path) or k in ("forecast_config", "input_data_dir") and v else v for k, v in a.items()}


class Shop(jobs.Shop):
    """job_submitter writes down what it is asked and makes an empty run directory"""

    def program(self, name, argv, cwd):
        if name != "job_submitter":
            return super().program(name, argv, cwd)
        i = len(self.calls)
        try:
            a = submitter_args(argv, cwd)
        except SystemExit:
            self.calls.append(("unreadable", argv))
            return 2, "", "usage"
        self.calls.append(("call", a))
        fails = i == self.fail
        if a["run_id"] and not (fails and self.how == "none"):
            from seyfert import VERSION
            r = Path(cwd) / f"{a['run_id']}_{VERSION}_2026-01-01T00-00-{i:02d}"
            r.mkdir()
            self.made.append(str(r.resolve()))
        return (1, "", "Traceback\nboom\n") if fails else (0, "", "")


def orchestrate(shop, argv, cwd):
    err = io.StringIO()
    code = shop.call("orchestrate_run", [str(a) for a in argv], str(cwd), err)
    return code, err.getvalue()[-600:]


def site(d, fail=None, how=None):
    shop = Shop(d / "shop")
    shop.calls, shop.made, shop.fail, shop.how = [], [], fail, how
    wd = d / "wd"
    wd.mkdir()
    (d / "files").mkdir()
    (d / "data").mkdir()
    (d / "default_data").mkdir()
    return shop, wd


def jfile(d, name, what=None):
    p = d / "files" / f"{name}.json"
    p.write_text(json.dumps({"is": what or name}))
    return p


def setup(shop, wd, d, x, c):
    """the configuration directory, as the program makes it: -> {kind: [paths in it]}"""
    one = {k: jfile(d, f"{k}_only") for k in ("pmm", "der", "res")}
    fish = [jfile(d, f"fish{i}") for i in range(x)]
    ang = [jfile(d, f"ang{i}") for i in range(c)]
    out = {}
    for i in range(max(x, c)):
        code, err = orchestrate(shop, ["-ccfg", "-pmm_cfg", one["pmm"], "-der_cfg", one["der"], "-res_cfg", one["res"],
                                       "-fish_cfg", fish[min(i, x - 1)], "-cl_cfg", ang[min(i, c - 1)]], wd)
        if code:
            return None, err
    for kind, files in (("fish_cfg", fish), ("cl_cfg", ang), ("pmm_cfg", [one["pmm"]]), ("der_cfg", [one["der"]]), ("res_cfg", [one["res"]])):
        out[kind] = [(wd / "config" / kind / f.name) for f in files]
        for f, g in zip(files, out[kind]):
            if not g.is_file() or g.read_bytes() != f.read_bytes():
                return None, f"{g} is not {f}"
        if len(list((wd / "config" / kind).iterdir())) != len(files):
            return None, f"{kind} has {list((wd / 'config' / kind).iterdir())}"
    return out, ""


def spell(f):
    return str(Path(f).resolve())


def bins(name):
    m = re.search("([0-9]+)_sp_bins", name)
    return int(m[1]) if m else None


def new(case, ctx, d):
    names = case.get("names", PLAIN if case.get("plain") else FCFG)[:case["f"]]
    shop, wd = site(d, case.get("fail"), case.get("how"))
    opt, flags, ex = case.get("opt", "none"), case["flags"], case["ex"]
    ctx.state(tuple(sorted((k, str(v)) for k, v in case.items())))
    ctx.trace()
    with shop.open(d / "default_data"):
        cfg, err = setup(shop, wd, d, case["x"], case["c"])
        if not ctx.check(cfg is not None, "config", lambda: f"configuration directory: {err}"):
            return
        argv = ["-ex", ex] + [FLAGS[f] for f in flags]
        if case["src"] == "config":
            forecasts = [wd / "config" / "fcfg" / f"{n}.json" for n in names]
            for f in forecasts:
                f.write_text("{}")
        else:
            forecasts = [jfile(d, n) for n in names]
            (wd / "config" / "fcfg" / "other_4_sp_bins.json").write_text("{}")
            if case["src"] == "list":
                argv += ["-fcfgs"] + forecasts
            else:
                (d / "list.txt").write_text("\n".join(map(str, forecasts)) + "\n")
                argv += ["-fcfgs", d / "list.txt"]
        pmms = []
        for i in range(case["p"]):
            p = d / "PowerSpectrum_store" / f"spectra{i}"
            if case.get("pnames", "PowerSpectrum") == "PowerSpectrum":
                p = p / "PowerSpectrum"
            p.mkdir(parents=True)
            pmms.append(p)
        if pmms and case.get("pform", "txt" if len(pmms) > 1 else "dir") == "dir":
            argv += ["-pmms", pmms[0]]
        elif pmms:
            (d / "pmms.txt").write_text("\n".join(map(str, pmms)) + "\n")
            argv += ["-pmms", d / "pmms.txt"]
        ext = {}
        if "ext" in case:
            for k in case["ext"]:
                ext[k] = d / f"ext_{k}"
                ext[k].mkdir()
            f = wd / "config" / "external_dirs.json"
            now = json.loads(f.read_text())
            ctx.eq(now, {"pmm_dir": None, "cl_dir": None, "der_dir": None}, "config", "external directories of a new configuration directory")
            f.write_text(json.dumps(now | {k: str(v) for k, v in ext.items()}))
        data = d / "default_data"
        want = {"queue": "long", "n_cores_per_job": 1, "memory": 2048, "ini_file": None, "verbose": False, "keep_cl_variations": False}
        if opt == "data":
            data = d / "data"
            argv += ["-i", data]
        elif opt == "ini":
            (d / "o.ini").write_text("[config]\n")
            argv += ["-ini", d / "o.ini"]
            want["ini_file"] = spell(d / "o.ini")
        elif opt == "flags":
            argv += ["-af", "verbose", "keep_cl_variations"]
            want["verbose"] = want["keep_cl_variations"] = True
        elif opt == "batch":
            mem = 900 if case["p"] % 2 else 4096
            argv += ["-q", "medium", "-ncj", 3, "-mem", mem]
            want |= {"queue": "medium", "n_cores_per_job": 3, "memory": mem}
        # directories of other campaigns
        decoys = [wd / f"{n}_more_1.3.8_2021-01-01T00-00-00" for n in names] + [wd / f"old_{names[0]}_1.3.8_2021-01-01T00-00-00"]
        for x in decoys:
            x.mkdir(exist_ok=True)
        code, err = orchestrate(shop, argv, wd)
    ctx.check(code == 0, "ends", lambda: f"orchestrate_run ended with {code}: {err}")
    got = shop.calls
    lists = [json.loads(f.read_text()) for f in wd.glob("rundirs_*.json")]
    if ex == "no":
        ctx.check(not got and not lists, "no", lambda: f"with execution no: {len(got)} runs, lists {lists}")
        return
    ctx.step(len(got))
    if not ctx.check(all(k == "call" for k, _ in got), "command", lambda: f"job_submitter cannot read {[a for k, a in got if k != 'call'][:1]}"):
        return
    got = [a for _, a in got]
    if all(bins(n) is not None for n in names):
        order = sorted(names, key=bins)
    else:
        order = list(names) if case["src"] != "config" else None
    expected = []
    for f, x, c in itertools.product(forecasts, cfg["fish_cfg"], cfg["cl_cfg"]):
        for p in pmms or [None]:
            e = dict(want, execution=ex, forecast_config=spell(f), fisher_config=spell(x), angular_config=spell(c), input_data_dir=spell(data), rundir=None,
                     powerspectrum_config=spell(cfg["pmm_cfg"][0]), derivative_config=spell(cfg["der_cfg"][0]), results_config=spell(cfg["res_cfg"][0]),
                     powerspectrum=False, **{t: t in flags for t in FLAGS}, powerspectrum_dir=spell(p) if p else None, angular_dir=None, derivative_dir=None)
            for k, v in ext.items():
                e[{"pmm_dir": "powerspectrum_dir", "cl_dir": "angular_dir", "der_dir": "derivative_dir"}[k]] = spell(v)
            expected.append(e)
    keys = sorted(expected[0])
    have = sorted(str([a[k] for k in keys]) for a in got)
    ctx.check(have == sorted(str([e[k] for k in keys]) for e in expected), "runs",
              lambda: f"{len(got)} runs, {len(expected)} expected; first different: " + str([
                  (k, a[k], e[k]) for a, e in zip(got, expected) for k in keys if a[k] != e[k]][:4]))
    if order:
        seq = [k for k, _ in itertools.groupby(Path(a["forecast_config"]).stem for a in got)]
        ok = [bins(s) for s in seq] == [bins(s) for s in order] and sorted(seq) == sorted(order) if all(bins(s) is not None for s in order) else seq == order
        ctx.check(ok, "order", lambda: f"forecasts run as {seq} expected {order}")
    ids = [a["run_id"] for a in got]
    ctx.check(len(set(ids)) == len(ids), "ids", lambda: f"run ids not distinct {ids}")
    for a in got:
        parts = [Path(a["forecast_config"]).stem]
        if case["x"] > 1:
            parts.append(Path(a["fisher_config"]).stem)
        if case["c"] > 1:
            parts.append(Path(a["angular_config"]).stem)
        if a["powerspectrum_dir"]:
            p = Path(a["powerspectrum_dir"])
            parts.append(p.parent.name if p.name == "PowerSpectrum" else p.name)
        ctx.eq(a["run_id"], "_".join(parts), "ids", "run id")
    ctx.check(len(lists) == 1, "rundirs", lambda: f"{len(lists)} lists of run directories")
    for got_dirs in lists:
        ctx.eq(sorted(str(Path(x).resolve()) for x in got_dirs), sorted(shop.made), "rundirs", "run directories of the campaign")


def rundirs(case, ctx, d):
    shop, wd = site(d)
    ctx.state(tuple(sorted((k, str(v)) for k, v in case.items())))
    ctx.trace()
    tasks = ("forecast", "PowerSpectrum", "Angular", "Derivative", "Fisher")
    runs = []
    for i in range(3):
        r = d / f"run{i}"
        (r / "input_files_dir").mkdir(parents=True)
        for t in tasks:
            (r / "input_files_dir" / f"{t}{i}.json").write_text("{}")
        (r / "input_files_dict.json").write_text(json.dumps({t: f"input_files_dir/{t}{i}.json" for t in tasks}))
        runs.append(r)
    with shop.open(d / "default_data"):
        cfg, err = setup(shop, wd, d, 1, 1)
        if not ctx.check(cfg is not None, "config", lambda: f"configuration directory: {err}"):
            return
        chosen = [runs[i] for i in case["order"]]
        argv = ["-ex", "batch"] + [FLAGS[f] for f in case["flags"]]
        if "angular" in case["flags"]:
            (d / "PMM").mkdir()
            argv += ["-pmms", d / "PMM"]
        if case["form"] == "list":
            argv += ["-rds"] + chosen
        elif case["form"] == "txt":
            (d / "l.txt").write_text("".join(f"{r}\n" for r in chosen))
            argv += ["-rds", d / "l.txt"]
        else:
            (d / "l.json").write_text(json.dumps([str(r) for r in chosen]))
            argv += ["-rds", d / "l.json"]
        if case["opt"] == "data":
            argv += ["-i", d / "data"]
        code, err = orchestrate(shop, argv, wd)
    ctx.check(code == 0, "ends", lambda: f"orchestrate_run ended with {code}: {err}")
    got = [a for k, a in shop.calls if k == "call"]
    ctx.check([a["rundir"] for a in got] == [spell(r) for r in chosen], "rundirs", lambda: f"run directories {[a['rundir'] for a in got]}")
    for a, r in zip(got, chosen):
        i = r.name[-1]
        for k, t in (("forecast_config", "forecast"), ("powerspectrum_config", "PowerSpectrum"), ("angular_config", "Angular"),
                     ("derivative_config", "Derivative"), ("fisher_config", "Fisher")):
            ctx.eq(a[k], spell(r / "input_files_dir" / f"{t}{i}.json"), "runs", f"{k} of {r.name}")
        ctx.eq({t for t in FLAGS if a[t]}, set(case["flags"]), "runs", "tasks")
        ctx.eq(a["input_data_dir"], spell(d / ("data" if case["opt"] == "data" else "default_data")), "runs", "input data")


# ---------------------------------------------------------------- ini files
class Idle(jobs.Shop):
    """the real job_submitter; jobs do nothing"""

    def program(self, name, argv, cwd):
        if name == "job_submitter":
            return super().program(name, argv, cwd)
        return 0, "", ""


STAMP = re.compile(r"\d{4}-\d{2}-\d{2}T\d{2}-\d{2}-\d{2}")


def observe(d, argv, opts_file=None):
    d.mkdir()
    w = World(d / "w", nz=17, free=("Omm",), free_bias=(), free_nuis=("aIA",), disps=(0.01,), nbins={"WL": 1, "GCph": 1, "GCsp": 1},
              ells={p: [(10, 2), (20, 4)] for p in ("WL", "GCph", "GCsp")}).write()
    w.write_pmm(d / "PMM")
    (d / "wd").mkdir()
    shop = Idle(d / "shop")
    base = ["-i", w.data, "-pmm_dir", d / "PMM", "-cl_cfg", w.cfg / "angular.json", "-pmm_cfg", w.cfg / "pmm.json", "-der_cfg", w.cfg / "derivative.json",
            "-fish_cfg", w.cfg / "fisher.json", "-fcfg", w.cfg / "forecast.json", "-id", "mine"]
    err = io.StringIO()
    shop.reset(schedule=lambda waiting: waiting)
    with shop.open(w.data):
        code = shop.call("job_submitter", [str(a) for a in base + list(argv)], str(d / "wd"), err)
    bsub = sorted(str(sorted((k, v) for k, v in o.items() if k not in ("-o", "-e"))) for _, o, _ in shop.queue.values())
    jobs_ = sorted(Path(c).name for c, _, _ in shop.queue.values())
    tree = sorted({STAMP.sub("T", str(p.relative_to(d / "wd"))) for p in (d / "wd").rglob("*")})
    return {"ok": code == 0, "bsub": bsub, "jobs": [STAMP.sub("T", j) for j in jobs_], "tree": tree if code == 0 else None}, err.getvalue()[-400:]


def ini(case, ctx, d):
    opts = case["opts"]
    ex = "batch" if case.get("batch") else "no"
    ctx.state(tuple(sorted(opts.items())))
    ctx.trace()
    cli = ["-ex", ex]
    for k, v in opts.items():
        if v.lower() == "true":
            cli.append(f"--{k}")
        elif v.lower() != "false":
            cli += [f"--{k}", v]
    a, ea = observe(d / "cli", cli)
    (d / "o.ini").write_text("[config]\n" + "".join(f"{k} = {v}\n" for k, v in opts.items()))
    b, eb = observe(d / "ini", ["-ex", ex, "-ini", d / "o.ini"])
    ctx.note("ini_runs_ok" if a["ok"] else "ini_runs_refused")
    if a["ok"] and not any("Angular" in x or "PowerSpectrum" in x or "Derivative" in x or "Fisher" in x for x in a["tree"]):
        raise HarnessError(f"the comparison shows no task: {a['tree'][:5]}")
    for k in a:
        ctx.check(a[k] == b[k], "ini", lambda: f"{opts}: {k} is {str(b[k])[:300]} with an ini file, {str(a[k])[:300]} on the command line; {eb} {ea}")

"""A forecast run as separate jobs ends as one computed in one go, in whatever order its jobs run; a failed job stops it."""
import contextlib
import io
import itertools
import os
import subprocess
import sys
from pathlib import Path

import h5py

from checks import P14
from vlib import crash, jobs
from vlib.core import HarnessError
from vlib.world import World

PROPERTY = "P20"
LEVEL = "model_checking"
RULE = ("all orders in which the jobs of a task can run; all ways of splitting the tasks over successive invocations, in the "
        "same run directory or in new ones linked to the previous, each invocation interactive or batch; failure of every "
        "program of a run, in each way a program can fail, followed by a new submission in the same run directory; all "
        "orders of the jobs of a batch of forecasts. The real programs run on a small forecast, started by the real shell "
        "scripts and by a stand-in of the batch system; results compared with do_forecast's")
BOUNDS = {"quick": "5 Angular, 2 Derivative, 1 + 3 Fisher jobs; all orders of each task; 50 splits; every program x 3 ways of "
                   "failing (batch: 2); 2 forecasts", "thorough": "4 ways of failing, also second failures"}
ASSUMPTIONS = ["the cluster is a stand-in for LSF running one job at a time; jobs of one task are shown to touch disjoint files, so "
               "overlapping jobs behave as in one of these orders"]
WORKERS = 8
CHUNK = 1
TASKS = ("Angular", "Derivative", "Fisher")
FLAG = {"Angular": "-cl", "Derivative": "-der", "Fisher": "-fish"}
LISTS = "\n".join(("[WL]: ['wlwl']", "[GCph]: ['phph']", "[GCsp]: ['spsp']", "[WL+GCph+XC(WL,GCph)]: ['wlwl', 'phph', 'wlph']",
                   "[WL+GCph]: ['wlwl', 'phph']", "[XC(WL,GCph)]: ['wlph']", ""))
_reference = {}
WAYS = ("silent", "stderr", "killed", "late")


def init():
    install, crash.install = crash.install, lambda: None
    P14.init()
    crash.install = install
    files_init()


def cases(tier):
    for mode in ("interactive", "batch"):
        yield {"kind": "compose", "plan": [[list(TASKS), mode, "new"]]}
    for cut in ((1,), (2,), (1, 2)):
        parts = [list(TASKS[a:b]) for a, b in zip((0,) + cut, cut + (3,))]
        for modes in itertools.product(("interactive", "batch"), repeat=len(parts)):
            for where in itertools.product(("same", "new"), repeat=len(parts) - 1):
                yield {"kind": "compose", "plan": [list(x) for x in zip(parts, modes, ("new",) + where)]}
    perms = list(itertools.permutations(range(5)))
    for i in range(0, 120, 20):
        yield {"kind": "orders", "task": "Angular", "perms": perms[i:i + 20]}
    yield {"kind": "orders", "task": "Derivative", "perms": list(itertools.permutations(range(2)))}
    yield {"kind": "orders", "task": "Fisher", "perms": list(itertools.permutations(range(3)))}
    for mode, n in (("interactive", 10), ("batch", 12)):
        for i in range(n):
            for how in WAYS if tier == "thorough" else ("silent", "stderr", "late") if mode == "interactive" else ("silent", "late"):
                yield {"kind": "fault", "mode": mode, "n": i, "how": how, "of": n, "twice": tier == "thorough"}
    for mode in ("interactive", "batch"):
        for ow in (False, True):
            yield {"kind": "again", "mode": mode, "ow": ow}
    yield {"kind": "manual"}
    for mode in ("interactive", "batch"):
        for order in ((0, 1), (1, 0)):
            yield {"kind": "seyfert", "mode": mode, "order": order}
            yield {"kind": "results", "mode": mode, "order": order}


# ---------------------------------------------------------------- which files a program opens
_touched = None


def files_init():
    def hook(event, args):
        t = _touched
        if t is None:
            return
        if event == "open" and isinstance(args[0], (str, bytes, os.PathLike)) and isinstance(args[2], int):
            t.append(("w" if args[2] & (os.O_WRONLY | os.O_RDWR) else "r", os.fsdecode(args[0])))
        elif event in ("os.rename", "os.remove", "os.rmdir", "os.symlink"):
            t.append(("w", os.fsdecode(args[1] if event == "os.symlink" else args[0])))
            if event == "os.rename":
                t.append(("w", os.fsdecode(args[1])))
    sys.addaudithook(hook)
    init_ = h5py.File.__init__

    def new(self, name, mode="r", *a, **k):
        if _touched is not None and isinstance(name, (str, bytes, os.PathLike)):
            _touched.append(("r" if mode == "r" else "w", os.fsdecode(name)))
        init_(self, name, mode, *a, **k)
    h5py.File.__init__ = new


class Shop(jobs.Shop):
    """remembers which files each program opened"""

    def call(self, name, argv, cwd, err):
        global _touched
        before, _touched = _touched, []
        try:
            return super().call(name, argv, cwd, err)
        finally:
            t, _touched = _touched, before
            if name not in ("job_submitter", "run_seyfert"):
                self.touched.append((name, argv, {(m, os.path.realpath(os.path.join(cwd, p))) for m, p in t}))


class Site:
    def __init__(self, root, f_sky=0.36):
        from seyfert.utils import filesystem_utils as fsu
        self.root = root
        self.w = World(root, nz=17, free=("Omm",), free_bias=(), free_nuis=("aIA",), disps=(0.01,),
                       nbins={"WL": 1, "GCph": 1, "GCsp": 1}, f_sky=f_sky,
                       ells={p: [(10, 2), (20, 4)] for p in ("WL", "GCph", "GCsp")}).write()
        self.w.write_pmm(root / "PMM")
        lists = root / "fishers"
        lists.mkdir()
        (lists / "selected_datavectors.txt").write_text(LISTS)
        (lists / "a_posteriori_fisher_combs.txt").write_text("[WL] + [GCsp(Pk)]\n[WL+GCph] + [XC(WL,GCph)]\n")
        if not hasattr(fsu, "fisher_aux_files_dir"):
            raise HarnessError("no fisher_aux_files_dir to put the lists of data vectors")
        fsu.fisher_aux_files_dir = lambda: lists
        self.shop = Shop(root / "shop")
        self.reset()
        self.wd = root / "wd"
        self.wd.mkdir()
        self.n = 0

    def reset(self, **k):
        self.shop.reset(**k)
        self.shop.touched = []

    def configs(self):
        c = self.w.cfg
        return ["-cl_cfg", str(c / "angular.json"), "-pmm_cfg", str(c / "pmm.json"), "-der_cfg", str(c / "derivative.json"),
                "-fish_cfg", str(c / "fisher.json"), "-i", str(self.w.data)]

    def submit(self, tasks, mode, rundir=None, links=None, extra=()):
        """(exit status, run dir, what was on stderr)"""
        argv = ["-ex", mode] + self.configs() + [FLAG[t] for t in tasks] + list(extra)
        if rundir is None:
            self.n += 1
            links = {"pmm": self.root / "PMM"} | (links or {})
            argv += ["-fcfg", str(self.w.cfg / "forecast.json"), "-id", f"inv{self.n}"]
            for k, d in links.items():
                argv += [f"-{k}_dir", str(d)]
        else:
            argv += ["-rd", str(rundir)]
        err = io.StringIO()
        with quiet():
            code = self.shop.call("job_submitter", argv, self.wd, err)
        if any(x[0] == "harness" for x in self.shop.log):
            raise HarnessError(str(self.shop.log[-1])[:500])
        if rundir is None:
            found = sorted(self.wd.glob(f"inv{self.n}_*"))
            rundir = found[0] if found else None
        return code, rundir, err.getvalue()

    def reference(self, forecast=None, keep=False):
        key = forecast and forecast.read_text()
        if key in _reference and not keep:
            return dict(_reference[key])
        from seyfert.main import seyfert_core
        w = self.w
        self.n += 1
        rd = self.root / f"one_go{self.n}"
        rd.mkdir()
        (self.root / "log.txt").write_text("log\n")
        with quiet():
            seyfert_core.do_forecast(dict(
                workdir=rd, powerspectrum_dir=self.root / "PMM", forecast_config=forecast or w.cfg / "forecast.json",
                angular_config=w.cfg / "angular.json", powerspectrum_config=w.cfg / "pmm.json",
                derivative_config=w.cfg / "derivative.json", fisher_config=w.cfg / "fisher.json", input_data_dir=w.data),
                self.root / "log.txt")
        _reference[key] = results(rd)
        return dict(_reference[key])


@contextlib.contextmanager
def quiet():
    import logging
    keep = logging.getLogger().handlers[:]
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        try:
            yield
        finally:
            logging.getLogger().handlers[:] = keep


def results(rd, parts=("Angular", "Fisher")):
    """what a run directory says, with the names that the two ways of running give differently made the same"""
    rd = Path(rd)
    snap = {}
    for d, sub, files in os.walk(rd, followlinks=True):
        for f in files:
            p = Path(d) / f
            rel = str(p.relative_to(rd))
            if f.endswith((".h5", ".hdf5", ".csv")) and "logs" not in rel and "auto_fisher" not in rel:
                snap[rel] = p.read_bytes()
    out = {}
    for rel, v in P14.values(snap).items():
        top, name = rel.split(os.sep)[0], os.path.basename(rel)
        if top == "Angular":
            if "dvar_central_step_0" not in rel:
                continue
            rel = "Angular"
        elif top in ("Derivative", "PowerSpectrum"):
            continue
        elif name.startswith("fisher_IST"):
            rel = "base_fishers/gcsp_pk"
        out[rel] = v
    return out


def everything(rd):
    """also the derivatives and the cls of each step"""
    snap = {}
    for d, sub, files in os.walk(rd, followlinks=True):
        for f in files:
            rel = str((Path(d) / f).relative_to(rd))
            if rel.startswith(("Angular", "Derivative")) and f.endswith(".h5"):
                snap[rel] = (Path(d) / f).read_bytes()
    return P14.values(snap)


def run_case(case, ctx):
    with ctx.scratch() as root:
        site = Site(root)
        with site.shop.open(root / "wd"):      # the default input directory is not the one that is asked for
            {"compose": compose, "orders": orders, "fault": fault, "manual": manual, "seyfert": seyfert,
             "results": final, "again": again}[case["kind"]](case, ctx, site)


def audit(ctx, site, what):
    """jobs of one task touch nothing that another of them writes"""
    by = {}
    for name, argv, t in site.shop.touched:
        by.setdefault((name, "wlwl" in argv), []).append((argv, t))
    for key, progs in by.items():
        for (a, ta), (b, tb) in itertools.combinations(progs, 2):
            if list(a) == list(b):
                continue
            wa, wb = ({p for m, p in t if m == "w" and p.startswith(str(site.wd)) and not p.endswith(".log")} for t in (ta, tb))
            clash = {p for p in wa if p in {q for _, q in tb}} | {p for p in wb if p in {q for _, q in ta}}
            ctx.check(not clash, "disjoint", lambda: f"{what}: jobs {key[0]} {a} and {b} share {sorted(clash)[:3]}")


def same(ctx, key, got, want, what):
    d = P14.differences(got, want)
    ctx.check(not d, key, lambda: f"{what}: {len(d)} differences: {d[:4]}")


def moved(ctx, site, what):
    """the links between run directories hold when the tree they are all in is moved"""
    links = [x for rd in site.wd.iterdir() if rd.is_dir() for x in rd.iterdir() if x.is_symlink() and site.wd.resolve() in x.resolve().parents]
    have = {x.relative_to(site.wd): sorted(str(y.relative_to(x)) for y in x.rglob("*")) for x in links}
    away = site.wd.with_name("moved away")
    site.wd.rename(away)
    try:
        for x, files in have.items():
            ctx.check(sorted(str(y.relative_to(away / x)) for y in (away / x).rglob("*")) == files if (away / x).exists() else False, "moved",
                      lambda: f"{what}: the runs moved to another place, {x} does not lead to what it was linked to: {(away / x).readlink()}")
    finally:
        away.rename(site.wd)


def compose(case, ctx, site):
    want = site.reference()
    ctx.check(len(want) > 40, "golden", f"the forecast left {len(want)} results: {sorted(want)}")
    what = " then ".join(f"{'+'.join(t)} {m} in {w} run dir" for t, m, w in case["plan"])
    rd, links = None, {}
    for tasks, mode, where in case["plan"]:
        site.reset(schedule=lambda waiting: waiting)
        keep = ["--keep_cl_variations"] if "Derivative" not in tasks else []
        code, rd, err = site.submit(tasks, mode, None if where == "new" else rd, links, keep)
        ctx.step(len(site.shop.log))
        if not ctx.check(code == 0, "succeeds", lambda: f"{what}: {tasks} ended with {code}: {err[-500:]}"):
            return
        audit(ctx, site, what)
        links = {k: rd / t for k, t in (("cl", "Angular"), ("der", "Derivative")) if (rd / t).exists()}
    moved(ctx, site, what)
    ctx.state(what)
    ctx.trace()
    if not (rd / "norm_densities.hdf5").exists() and (rd / "Angular").is_symlink():
        want.pop("norm_densities.hdf5", None)      # they are where the Angular task was run
    same(ctx, "results", results(rd), want, what)
    ctx.note({"plan": what, "results compared": len(want)})


def by_perm(perm, wave):
    """run the jobs of the wave-th group submitted in the order of perm, one per poll; others in the order of submission"""
    groups = []

    def pick(waiting):
        if not waiting:
            return []
        if not groups or waiting[-1] > groups[-1][-1]:
            groups.append(list(waiting))
        if len(groups) - 1 == wave and len(groups[-1]) == len(perm):
            return [j for j in (groups[-1][i] for i in perm) if j in waiting][:1]
        return waiting[:1]
    pick.groups = groups
    return pick


def orders(case, ctx, site):
    want, first = None, None
    task = case["task"]
    if task == "Angular":
        tasks, wave, extra, before = ["Angular"], 0, ["--keep_cl_variations"], None
    else:
        site.reset(schedule=lambda w: w)
        done = list(TASKS[:TASKS.index(task)])
        code, before, err = site.submit(done, "interactive", None, None, ["--keep_cl_variations"])
        if not ctx.check(code == 0, "succeeds", lambda: f"{done} ended with {code}: {err[-500:]}"):
            return
        tasks, wave, extra = [task], 0 if task == "Derivative" else 1, []
    golden = site.reference()
    for perm in [tuple(range(len(case["perms"][0])))] + [tuple(p) for p in case["perms"]]:
        pick = by_perm(perm, wave)
        site.reset(schedule=pick)
        links = {k: before / t for k, t in (("cl", "Angular"), ("der", "Derivative")) if before and t in done}
        code, rd, err = site.submit(tasks, "batch", None, links, extra)
        what = f"{task} jobs run in order {perm}"
        if not ctx.check(code == 0, "succeeds", lambda: f"{what}: ended with {code}: {err[-500:]}"):
            return
        if not ctx.check(len(pick.groups) > wave and len(pick.groups[wave]) == len(perm), "jobs",
                         lambda: f"{what}: groups of jobs submitted: {pick.groups}"):
            return
        ctx.step(len(site.shop.log))
        ctx.state(what)
        ctx.trace()
        got = everything(rd) | results(rd)
        if first is None:
            first = got
            audit(ctx, site, what)
            part = {k: v for k, v in golden.items() if k in got}
            ctx.check(len(part) >= (3 if task != "Derivative" else 1), "results", f"{task}: left {sorted(got)}")
            same(ctx, "results", {k: got[k] for k in part}, part, what)
            if task == "Fisher":
                golden.pop("norm_densities.hdf5", None)
                same(ctx, "results", results(rd), golden, what)
        else:
            same(ctx, "order", got, first, what)


def fault(case, ctx, site):
    mode, n, how = case["mode"], case["n"], case["how"]
    want = site.reference()
    what = f"{mode} run whose program {n} fails ({how})"
    site.reset(schedule=lambda w: w, faults={n: how})
    code, rd, err = site.submit(TASKS, mode, extra=["--keep_cl_variations"])
    progs = [x for x in site.shop.log if x[0] in jobs.PROGRAMS]
    if not ctx.check(len(progs) > n, "programs", lambda: f"{what}: only {len(progs)} programs were run: {err[-300:]}"):
        return
    ctx.state((mode, n, how))
    ctx.trace()
    ctx.step(len(site.shop.log))
    failed = progs[n]
    ctx.check(code != 0, "noticed", f"{what}: {failed[0]} failed and the submitter ended with {code}")
    later = [p[0] for p in progs[n + 1:]]
    if mode == "interactive":
        ctx.check(not later, "stops", f"{what}: after {failed[0]} failed, {later[:3]} were run")
    else:
        auto = "wlwl" in failed[1]
        ctx.check(all(x == failed[0] for x in later) and not (auto and later), "stops",
                  f"{what}: after {failed[0]} {failed[1][:2]} failed, {later[:9]} were run")
    steps = [("again", None)]
    if case["twice"]:
        steps = [("again", {i: "silent"}) for i in range(0, case["of"], 3)] + steps
    for k, f in steps:
        site.reset(schedule=lambda w: w, faults=f)
        code, rd, err = site.submit(TASKS, mode, rundir=rd, extra=["-ow", "--keep_cl_variations"])
        ctx.step(len(site.shop.log))
        if f and len([x for x in site.shop.log if x[0] in jobs.PROGRAMS]) > min(f):
            ctx.check(code != 0, "noticed", f"{what}, submitted again with program {min(f)} failing: ended with {code}")
        elif not ctx.check(code == 0, "again", lambda: f"{what}: submitted again it ended with {code}: {err[-500:]}"):
            return
    same(ctx, "again", results(rd), want, f"{what}, submitted again")


def again(case, ctx, site):
    want = site.reference()
    site.reset(schedule=lambda w: w)
    code, rd, err = site.submit(TASKS, case["mode"], extra=["--keep_cl_variations"])
    if not ctx.check(code == 0, "succeeds", lambda: f"ended with {code}: {err[-500:]}"):
        return
    marks = {p.name: p.stat().st_mtime_ns for p in (rd / "base_fishers").glob("*.hdf5") if "IST" not in p.name}
    for tasks in (TASKS, ["Derivative", "Fisher"], ["Fisher"]):
        if not case["ow"]:
            for p in sorted((rd / "final_results").rglob("*"), reverse=True):
                p.unlink() if p.is_file() else p.rmdir()
            for p in (rd / "base_fishers").glob("*IST*"):
                p.unlink()
        site.reset(schedule=lambda w: w)
        code, rd, err = site.submit(tasks, case["mode"], rundir=rd, extra=["--keep_cl_variations"] + (["-ow"] if case["ow"] else []))
        what = f"{case['mode']} run, then {'+'.join(tasks)} again, overwrite {case['ow']}"
        if not ctx.check(code == 0, "again", lambda: f"{what}: ended with {code}: {err[-700:]}"):
            return
        ctx.trace()
        ctx.state(what)
        same(ctx, "again", results(rd), want, what)
        new = {p.name: p.stat().st_mtime_ns for p in (rd / "base_fishers").glob("*.hdf5") if "IST" not in p.name}
        kept = {k for k in marks if new.get(k) == marks[k]}
        ctx.check(kept == (set() if case["ow"] else set(marks)), "overwrite",
                  f"{what}: base Fisher matrices {sorted(kept)} of {sorted(marks)} were kept")
        marks = new
    # the program which computes the delta Cls alone, where there are none and over those of something else
    (delta,) = rd.rglob("delta_cls*")
    for k, spoilt in enumerate((True, False)):
        what = f"{case['mode']} run, compute_delta_cls " + ("over another file" if spoilt else "without a file")
        delta.unlink()
        if spoilt:
            delta.write_bytes(b"no hdf5 file")
        with quiet():
            err = io.StringIO()
            code = site.shop.call("compute_delta_cls", [os.path.relpath(rd, site.wd) if k else str(rd)], site.wd, err)
        if ctx.check(code == 0, "delta", lambda: f"{what}: ended with {code}: {err.getvalue()[-500:]}"):
            ctx.state(what)
            ctx.step()
            same(ctx, "delta", results(rd), want, what)


def manual(case, ctx, site):
    """execution "no" prepares scripts that give the results when they are run by hand"""
    want = site.reference()
    site.reset()
    code, rd, err = site.submit(["Angular", "Derivative"], "no", extra=["--keep_cl_variations"])
    if not ctx.check(code == 0, "succeeds", lambda: f"ended with {code}: {err[-500:]}"):
        return
    ctx.check(not site.shop.log, "no", f'execution "no" ran {site.shop.log[:2]}')
    for task, n in (("Angular", 5), ("Derivative", 2)):
        scripts = sorted((rd / task).glob("*/*.sh"), reverse=True)
        ctx.eq(len(scripts), n, "scripts", f"number of scripts of {task}")
        for s in scripts:
            r = subprocess.run([str(s)], cwd=site.wd, capture_output=True, text=True)
            ctx.check(r.returncode == 0, "scripts", lambda: f"{s.name} run by hand: {r.stderr[-300:]}")
    ctx.trace()
    site.reset()
    code, rd2, err = site.submit(["Angular"], "interactive", extra=["--keep_cl_variations"])
    code, rd3, err = site.submit(["Fisher"], "interactive", None, {"cl": rd2 / "Angular", "der": rd / "Derivative"})
    if ctx.check(code == 0, "succeeds", lambda: f"Fisher after scripts run by hand ended with {code}: {err[-500:]}"):
        want.pop("norm_densities.hdf5", None)
        same(ctx, "results", results(rd3), want, "Fisher on scripts run by hand")


def two_forecasts(site):
    import json
    cfgs = []
    for n, f in ((4, 0.36), (12, 0.21)):
        d = site.w.config_dict()
        d["survey"]["f_sky"] = f
        p = site.w.cfg / f"forecast_{n}_sp_bins.json"
        p.write_text(json.dumps(d))
        cfgs.append(p)
    return cfgs


def seyfert(case, ctx, site):
    cfgs = two_forecasts(site)
    want = {c.stem: site.reference(c) for c in cfgs}
    given = cfgs if case["order"][0] == 0 else cfgs[::-1]
    argv = ["-ex", case["mode"], "-wd", str(site.wd), "-pmm_dir", str(site.root / "PMM"), "-fcfg"] + [str(c) for c in given] + site.configs()
    site.reset()
    err = io.StringIO()
    with quiet():
        code = site.shop.call("run_seyfert", argv, site.wd, err)
    what = f"run_seyfert {case['mode']} of two forecasts"
    if not ctx.check(code == 0, "succeeds", lambda: f"{what} ended with {code}: {err.getvalue()[-600:]}"):
        return
    if case["mode"] == "batch":
        ctx.eq(len(site.shop.queue), 2, "jobs", what)
        site.shop.schedule = lambda w: [w[i] for i in case["order"]]
        with quiet():
            site.shop.bjobs([str(j) for j in site.shop.queue], str(site.wd))
        ctx.check(set(site.shop.status.values()) == {"DONE"}, "jobs", lambda: f"{what}: jobs ended {site.shop.status}: " + " ".join(
            p.read_text()[-300:] for p in site.wd.rglob("*.err")))
        audit(ctx, site, what)
    ctx.trace()
    ctx.state((what, case["order"]))
    for c in cfgs:
        rds = list(site.wd.glob(f"run_{c.stem}_*"))
        if ctx.check(len(rds) == 1, "jobs", f"{what}: run directories {rds}"):
            same(ctx, "results", results(rds[0]), want[c.stem], f"{what}, {c.name}")


def final(case, ctx, site):
    """evaluate_final_results on several runs"""
    cfgs = two_forecasts(site)
    want, rds = {}, []
    for c in cfgs:
        want[c.stem] = site.reference(c, keep=True)
        rd = site.root / f"one_go{site.n}"
        rds.append(rd)
        for p in sorted((rd / "final_results").rglob("*"), reverse=True):
            p.unlink() if p.is_file() else p.rmdir()
    site.reset(schedule=lambda w: [w[i] for i in case["order"]] if len(w) == 2 else w)
    err = io.StringIO()
    with quiet():
        code = site.shop.call("evaluate_final_results", ["-ex", case["mode"], "-wd", str(site.wd), "-i"] + [str(r) for r in rds],
                              site.wd, err)
    what = f"evaluate_final_results {case['mode']} of two runs"
    if not ctx.check(code == 0, "succeeds", lambda: f"{what} ended with {code}: {err.getvalue()[-600:]}"):
        return
    ctx.trace()
    ctx.state((what, case["order"]))
    for c, rd in zip(cfgs, rds):
        same(ctx, "results", results(rd), want[c.stem], f"{what}, {c.name}")

"""A batch run waits for every job, stops at the first that fails, and submits each job as asked."""
import itertools
import re
from pathlib import Path

from vlib import lsf
from vlib.core import HarnessError

PROPERTY = "P17"
LEVEL = "model_checking"
RULE = ("all histories of what the batch system shows of each job at each poll (not listed, waiting, done, no longer listed, "
        "failed) of 1, 2 and 3 jobs, each run through the real waiting loop against a `bjobs` that shows exactly that, in "
        "virtual time; the number of polls and the outcome are compared with an automaton of the jobs. The same for the "
        "Fisher and per-parameter task runners on top of `bsub`; all option combinations of a submission")
BOUNDS = {"quick": "1 job, 5 polls, all statuses; 2 jobs, 4 polls; 3 jobs, 2 polls; 2 time limits",
          "thorough": "1 job, 6 polls; 2 jobs, 5 polls; 3 jobs, 3 polls; 2 time limits"}
ASSUMPTIONS = ["the cluster is a stand-in for LSF: bsub and bjobs on PATH; time is virtual"]
WORKERS = 8

WAIT = ("PEND", "RUN", "PSUSP", "USUSP", "SSUSP", "UNKWN", "WAIT", "ZOMBI")
USERS = ("luca", "lpaganin2", "Rossi", "m.bonici-3_x", r"CORP\anna", "x@y.z", "7", "PEND")
IDS = (1000, 7, 98765, 4012345678, 12345678, 999999)
NAMES = ("job_central", "compute_fisher_matrix_wlwl --rundir /a/12 x DONE", "*7 abc EXIT", "run 1001 luca RUN")


def histories(n, letters):
    """what n polls can show of one job: waiting or not listed, then done (and perhaps forgotten) or failed"""
    out = []
    for k in range(n + 1):
        for w in itertools.product(letters, repeat=k):
            if k == n:
                out.append(w)
                continue
            out.append(w + ("E",))
            for d in range(1, n - k + 1):
                out.append(w + ("D",) * d + ("G",) * (n - k - d))
    return out


def pad(h, n):
    return tuple(h) + (h[-1],) * (n - len(h))


def cases(tier):
    quick = tier == "quick"
    n1, n2, n3 = (5, 4, 2) if quick else (6, 5, 3)
    h1 = histories(3, ("U",) + WAIT) + histories(n1, ("U", "PEND", "RUN"))
    h2, h3 = histories(n2, "UW"), histories(n3, "UW")

    def blocks(name, combos, n, size):
        combos = list(combos)
        for i in range(0, len(combos), size):
            yield {"kind": "wait", "what": name, "hs": combos[i:i + size], "first": i, "n": n}

    yield from blocks("one", [(h,) for h in h1], n1, 120)
    yield from blocks("two", itertools.product(h2, repeat=2), n2, 120)
    yield from blocks("three", itertools.product(h3, repeat=3), n3, 120)
    small = histories(2, "UW")
    for u, user in enumerate(USERS):
        for name in NAMES:
            yield {"kind": "wait", "what": "shown", "hs": list(itertools.product(small, repeat=2)), "first": 0, "n": 2, "user": user,
                   "name": name}
    for res in (1, 2.5, 10, 0.5, 30.0, 7):
        yield {"kind": "wait", "what": "resolution", "hs": [(h,) for h in histories(3, "UW")], "first": 0, "n": 3, "res": res}
    yield {"kind": "submit", "test": False}
    yield {"kind": "submit", "test": True}
    ha = histories(3 if quick else 4, "UW")
    for h in filter(ends, ha):
        yield {"kind": "fisher", "auto": h, "cross": [x for x in histories(2 if quick else 3, "UW") if ends(x)]}
    for which in ("Angular", "Derivative"):
        yield {"kind": "task", "task": which, "hs": [x for x in histories(2 if quick else 3, "UW") if ends(x)]}


def run_case(case, ctx):
    with ctx.scratch() as d:
        cl = lsf.Cluster(d)
        {"wait": wait, "submit": submit, "fisher": fisher, "task": task}[case["kind"]](case, ctx, cl, d)


def rows(h, user, name):
    def row(letter):
        if letter in "UG":
            return None
        stat = {"D": "DONE", "E": "EXIT", "W": "RUN"}.get(letter, letter)
        return f"{user} {stat} long ui01.ge.infn.it 4*farm12.ge.infn.it {name} Nov 19 22:10"
    return [row(x) for x in h]


def expected(hs, n, limit_polls):
    """number of polls and outcome: after poll k every job seen done -> returns; one failed -> raises; limit over -> returns"""
    done = set()
    k = 0
    while True:
        now = [pad(h, n)[min(k, n - 1)] for h in hs]
        done |= {j for j, x in enumerate(now) if x == "D"}
        if len(done) == len(hs):
            return k + 1, "returns"
        if "E" in now:
            return k + 1, "raises"
        if k + 1 > limit_polls:
            return k + 1, "returns"
        k += 1


def wait(case, ctx, cl, d):
    from seyfert.main.bsub_utils import BsubInterface, ExitedBatchJobError
    n, res = case["n"], case.get("res", 30)
    for i, hs in enumerate(case["hs"], case["first"]):
        for limit in (1, n + 2):
            user, name = case.get("user", USERS[i % 8]), case.get("name", NAMES[i // 8 % 4])
            ids = [IDS[i % 6] + j for j in range(len(hs))]
            cl.reset(header=i % 5 != 0, base=ids[0])
            for j, h in enumerate(hs):
                cl.history(j, rows(h, user, name), submitted=True)
            asked = [str(x) for x in ids] if i % 2 else ids
            cl.limit = 5 + res * (n + 40)
            want = expected(hs, n, limit)
            got = None
            with cl.running():
                try:
                    BsubInterface().waitForJobsToComplete(asked, check_time_resolution_secs=res,
                                                          max_time_wait_h=res * (limit + 0.5) / 3600, wait_overhead_secs=res / 10)
                    got = "returns"
                except ExitedBatchJobError:
                    got = "raises"
                except lsf.Endless:
                    got = "does not end"
            polls = [e for e in cl.events() if e[0] == "poll"]
            what = f"jobs shown as {hs} (limit after {limit} polls, user {user}, names {name!r})"
            ctx.eq((len(polls), got), want, "wait", f"{what}: (polls, outcome)")
            for a, b in zip(polls, polls[1:]):
                ctx.check(b[2] - a[2] > res * 0.99, "resolution", f"polls at {a[2]} and {b[2]} with a resolution of {res} s")
            for e in polls:
                ctx.check(set(e[3]) <= set(ids), "asked", f"bjobs asked for {e[3]}, jobs are {ids}")
            ctx.step(len(polls))
            ctx.state(("wait", hs, limit, user, name, res))
            ctx.trace()


def options(args):
    """(options, command) of a bsub call"""
    opts, i = {}, 0
    while i < len(args) and args[i].startswith("-"):
        if args[i].startswith("-R") and len(args[i]) > 2:
            opts["-R"] = args[i][2:]
            i += 1
        else:
            opts[args[i]] = args[i + 1]
            i += 2
    return opts, args[i:]


def submit(case, ctx, cl, d):
    from seyfert.main.bsub_utils import BsubInterface
    n = 0
    for queue, cores, mem in itertools.product(("long", "medium"), (1, 8), (2048, 10000, None)):
        bsub = BsubInterface()
        if mem is not None:
            bsub.setOptions(queue=queue, n_cores=cores, memory_MB=mem)
        elif (queue, cores) != ("medium", 1):
            continue
        for stamp, start, sep, silent, form in itertools.product((True, False), ("job", "auto_corrs", "wlwl_phph_wlph"), (True, False),
                                                                 (True, False), ("str", "path")):
            n += 1
            logs = d / "logs" / f"l{n}"
            cmd = "compute_x wlwl --rundir /some/dir" if form == "str" else Path("/some/dir/job_x.sh")
            cl.reset()
            with cl.running():
                kw = dict(add_datetime_to_logs=stamp, logs_path=logs if n % 2 else str(logs), test=case["test"], logs_start_str=start,
                          silent=silent, separate_err_out_dirs=sep)
                jid = bsub.submitJob(cmd, **kw)
                jid2 = bsub.submitJob(cmd, **kw)
            what = f"submitJob({cmd}, {kw})"
            ctx.step(2)
            ctx.state(("submit", case["test"], queue, cores, mem, stamp, start, sep, silent, form))
            evs = cl.events()
            if case["test"]:
                ctx.eq((jid, evs), (None, []), "test-mode", what)
                continue
            ctx.eq((str(jid), str(jid2), len(evs)), ("1000", "1001", 2), "submit", what)
            opts, command = options(cl.args(0))
            ctx.eq(" ".join(command), str(cmd), "command", what)
            if mem is not None:
                ctx.eq((opts.get("-q"), opts.get("-n"), opts.get("-M")), (queue, str(cores), str(mem)), "options", what)
            ctx.check(f"rusage[mem={opts.get('-M')}]" in opts.get("-R", ""), "memory", f"{what}: {opts}")
            for o, sub in (("-o", "out"), ("-e", "err")):
                f = Path(opts.get(o, ""))
                ctx.eq(str(f.parent), str(logs / sub if sep else logs), "logs", f"{what} {o}")
                ctx.check(f.parent.is_dir(), "logs-dir", f"{what}: {f.parent} not there")
                ctx.check(f.name.startswith(f"{sub}_{start}"), "logs-name", f"{what}: {f.name}")
                if stamp:
                    ctx.check(re.fullmatch(rf"{sub}_{start}_\d{{4}}-\d\d-\d\dT\d\d-\d\d-\d\d\.{sub}", f.name), "logs-name", f"{what}: {f.name}")
            ctx.check(opts.get("-o") != opts.get("-e"), "logs-distinct", what)
    for refused in (0, 1):
        cl.reset()
        cl.refuse(refused)
        got = []
        with cl.running():
            for k in range(2):
                try:
                    got.append(BsubInterface().submitJob("x", logs_path=d / "refused", test=case["test"]))
                except Exception as e:
                    got.append("raised")
        want = [None, None] if case["test"] else ["raised" if k == refused else str(1000 + k) for k in range(2)]
        ctx.eq(got, want, "refused", f"submission {refused} refused by the batch system")
    ctx.trace()


def arguments(**kw):
    from seyfert.config.cmd_line import JobSubmitterCommandLineArgs
    a = dict(execution="batch", queue="medium", memory=3000, n_cores_per_job=2, verbose=False, test=False, overwrite_results=False)
    a.update(kw)
    return JobSubmitterCommandLineArgs(a)


class Config:
    def __init__(self, pars, n=4):
        self.phys_pars, self.n_sp_bins = pars, n


def parameters():
    import numpy as np
    from seyfert.cosmology.parameter import PhysicalParameter, PhysicalParametersCollection
    p = PhysicalParametersCollection(base_stem_disps=np.array([0.01]), is_universe_flat=True)
    for n, v, m in (("h", 0.67, "SteM"), ("Omm", 0.3, "SteM")):
        p[n] = PhysicalParameter(name=n, kind="CosmologicalParameter", fiducial=v, current_value=v, is_free_parameter=n == "h",
                                 stem_factor=1.0, derivative_method=m, units="None")
    return p


def workspace(d, name="run"):
    from seyfert.utils.workspace import WorkSpace
    (d / name).mkdir()
    return WorkSpace(d / name)


def outcome(fn, cl, n_jobs):
    from seyfert.main.bsub_utils import ExitedBatchJobError
    cl.limit = 4 * 3600
    with cl.running():
        try:
            fn()
            return "returns"
        except ExitedBatchJobError:
            return "raises"
        except lsf.Endless:
            return "does not end"


def ends(h):
    return h[-1] in "DGE"


def fisher(case, ctx, cl, d):
    from seyfert.fisher import fisher_utils
    from seyfert.main.task_runners import FisherTaskRunner
    from seyfert.utils import filesystem_utils as fsu
    vectors = [v.toBriefString() for v in fisher_utils.load_selected_data_vectors()]
    autos = {"wlwl", "phph", "spsp"}
    crosses = [v for v in vectors if v not in autos]
    if len(crosses) < 3:
        raise HarnessError("too few data vectors")
    for i, (hc, present, overwrite) in enumerate(itertools.product(case["cross"], (False, True), (False, True))):
        auto = case["auto"]
        ws = workspace(d, f"run{i}")
        if present:
            ws.auto_f_ells_file.write_bytes(b"x")
            ws.base_fishers_dir.mkdir()
            (ws.base_fishers_dir / "fisher_wlwl.hdf5").write_bytes(b"y")
        skip = present and not overwrite
        runner = FisherTaskRunner(workspace=ws, args=arguments(overwrite_results=overwrite), forecast_config=Config(parameters()),
                                  json_input=fsu.config_files_dir() / "fisher_config.json")
        cl.reset()
        first = 0 if skip else 1
        done = rows(("D",), "luca", "x")
        if not skip:
            cl.history(0, rows(auto, "luca2", "x"))
        cl.history("else", done)
        cl.history(first + len(crosses) - 1 - i % 3, rows(hc, "luca", "x"))
        got = outcome(runner.submitBatchJobs if i % 2 else runner.run, cl, len(crosses) + 1)
        what = f"Fisher task: auto job shown as {auto}, a cross job as {hc}, results present {present}, overwrite {overwrite}"
        evs = cl.events()
        subs = [(e, options(cl.args(e[1]))[1]) for e in evs if e[0] == "sub"]
        asked = [[w for w in c if re.fullmatch(r"((wl|ph|sp)(wl|ph|sp)_?)+", w)] for _, c in subs]
        for (_, c), a in zip(subs, asked):
            ctx.check("--rundir" in c and c[c.index("--rundir") + 1] == str(ws.run_dir), "rundir", f"{what}: {c}")
        if overwrite:
            ctx.check(not (ws.base_fishers_dir / "fisher_wlwl.hdf5").exists() and not ws.auto_f_ells_file.exists(), "overwrite", what)
        elif present:
            ctx.check((ws.base_fishers_dir / "fisher_wlwl.hdf5").exists() and ws.auto_f_ells_file.exists(), "kept", what)
        want = "returns"
        if not skip:
            polls, want = expected([auto], len(auto), 10 ** 6)
            if ctx.check(len(asked) > 0 and sorted(asked[0]) == sorted(autos), "auto", f"{what}: first submission {asked[:1]}"):
                before = [e for e in evs[1:] if e[0] == "poll"] if len(subs) < 2 else evs[1:evs.index(subs[1][0])]
                seen = [e for e in before if e[0] == "poll"]
                ctx.eq(len(seen), polls, "auto-wait", f"{what}: polls of the auto job before anything else")
            if want == "raises":
                ctx.eq((got, len(subs)), ("raises", 1), "auto-failed", f"{what}: (outcome, submissions)")
        if want != "raises":
            cross = asked[first:]
            ctx.eq(sorted(sum(cross, [])), sorted(crosses), "cross", f"{what}: cross data vectors submitted")
            ctx.check(all(len(a) == 1 for a in cross), "cross-one", f"{what}: {cross}")
            ctx.eq(got, expected([hc], len(hc), 10 ** 6)[1], "outcome", what)
        logs = sum([[options(cl.args(e[1]))[0][o] for o in ("-e", "-o")] for e, _ in subs], [])
        ctx.eq(len(set(logs)), 2 * len(subs), "logs", f"{what}: log files shared between jobs")
        ctx.step(len(evs))
        ctx.state(("fisher", auto, hc, present, overwrite))
        ctx.trace()


def task(case, ctx, cl, d):
    from seyfert.main import task_runners
    from seyfert.utils import filesystem_utils as fsu
    hs = case["hs"]
    for i, (h, g) in enumerate(itertools.product(hs, repeat=2)):
        pars = parameters()
        pars["Omm"].is_free_parameter = True
        ws = workspace(d, f"run{i}")
        runner = getattr(task_runners, f"{case['task']}TaskRunner")(
            workspace=ws, args=arguments(), forecast_config=Config(pars),
            json_input=fsu.config_files_dir() / f"{case['task'].lower()}_config.json")
        runner.createJobDirStructure()
        dirs = sorted(x.name for x in ws.run_dir.glob("*/*") if x.is_dir())
        names = ["Omm", "h"] if case["task"] == "Derivative" else sorted(
            ["dvar_central_step_0"] + [f"dvar_{p}_step_{s}_1" for p in ("h", "Omm") for s in "pm"])
        ctx.eq(dirs, names, "job-dirs", f"{case['task']} job directories")
        cl.reset()
        cl.history("else", rows(("D",), "luca", "x"))
        cl.history(0, rows(h, "luca", "x"))
        cl.history(len(names) - 1, rows(g, "luca", "x"))
        got = outcome(runner.run, cl, len(names))
        what = f"{case['task']} task, first job shown as {h}, last as {g}"
        evs = cl.events()
        subs = [options(cl.args(e[1])) for e in evs if e[0] == "sub"]
        scripts = [Path(c[0]) for _, c in subs]
        ctx.eq(sorted(s.parent.name for s in scripts), names, "scripts", what)
        for s, (o, _) in zip(scripts, subs):
            text = s.read_text()
            ctx.check(f"cd {s.parent}" in text and f"--workdir {s.parent}" in text and f"--rundir {ws.run_dir}" in text, "script", f"{what}: {text}")
            ctx.eq((str(Path(o["-o"]).parent), str(Path(o["-e"]).parent)), (str(s.parent),) * 2, "logs", what)
            ctx.eq((o["-q"], o["-M"], o["-n"]), ("medium", "3000", "2"), "options", what)
        firstpoll = [k for k, e in enumerate(evs) if e[0] == "poll"]
        ctx.check(not firstpoll or firstpoll[0] >= len(names), "submit-all", f"{what}: {evs}")
        ctx.check(len(firstpoll) > 0, "no-poll", what)
        polls, out = expected([h, g], max(len(h), len(g)), 10 ** 6)
        ctx.eq((got, len(firstpoll)), (out, polls), "outcome", f"{what}: (outcome, polls)")
        ctx.step(len(evs))
        ctx.state(("task", case["task"], h, g))
        ctx.trace()

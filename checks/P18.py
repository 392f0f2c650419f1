"""Job reports say of every job, task and run what its files say."""
import datetime
import itertools
import os
import re
from pathlib import Path

PROPERTY = "P18"
LEVEL = "model_checking"
RULE = ("all combinations of what a job directory can hold (error file, output file of the batch system, product, core file, "
        "log; one or two submissions), all durations of a list over day, month and year ends, all sequences of job states of a "
        "task, all combinations of task states of a run (absent, linked, five states): reports compared with the rules")
BOUNDS = {"quick": "480 job directories, 42 spans of time, tasks of up to 3 jobs, all 7^4 runs",
          "thorough": "tasks of up to 4 jobs"}
WORKERS = 8

SPANS = [(datetime.datetime(*a), s) for a in ((2026, 11, 9, 22, 10, 5), (2021, 12, 31, 23, 59, 59), (2024, 2, 28, 0, 0, 0),
                                              (2030, 5, 31, 12, 0, 1), (2020, 1, 1, 9, 9, 9), (2026, 10, 10, 10, 10, 10))
         for s in (0, 59, 3600, 86399, 86400, 100000, 5 * 86400 + 7)]
ERRS = (None, "", "Traceback: ValueError\n", "line 3: 123 Aborted (core dumped)\nCore Dump\n")
TASKS = ("PowerSpectrum", "Angular", "Derivative", "Fisher")
BATCH = ("... \nSuccessfully completed.\n\nResource usage\n", "Exited with exit code 1.\n", "", "Not Successfully completed.\n",
         "Successfully completed. Not.\n", "Successfully completed!\n", "Successfully completed.")
HOSTS = (("farm12",), ("4*farm03", "farm7"), ("farmui01", "farm12"))


def stamp(t):
    return f"{t:%a %b} {t.day:2d} {t:%H:%M:%S %Y}"


def outtext(job_id, start, secs, hosts=("farm12",), times=True, mem=(100.5, 90.25, 2048.0, 1947.5), cpu=12.5):
    end = start + datetime.timedelta(seconds=secs)
    t = f"Sender: LSF System <lsfadmin@{hosts[0]}.ge.infn.it>\nSubject: Job {job_id}: <x> in cluster Done\n\n"
    t += f"Job <x> was submitted from host <farmui02.ge.infn.it> by user <luca> in cluster <ge>.\n"
    t += "Job was executed on host(s) " + ", ".join(f"<{h}.ge.infn.it>" for h in hosts) + ", in queue <long>.\n"
    if times:
        t += f"Started at {stamp(start)}\nResults reported on {stamp(end)}\n"
    t += f"Successfully completed.\nResource usage summary:\n    CPU time :               {cpu} sec.\n"
    t += f"    Max Memory :             {mem[0]} MB\n    Average Memory :         {mem[1]} MB\n"
    t += f"    Total Requested Memory : {mem[2]} MB\n    Delta Memory :           {mem[3]} MB\n"
    return t


def cases(tier):
    quick = tier == "quick"
    for err in range(len(ERRS)):
        for name in range(2):
            yield {"kind": "job", "err": err, "name": name}
    for i in range(0, len(SPANS), 7):
        yield {"kind": "times", "first": i}
    n = 3 if quick else 4
    for k in range(1, n + 1):
        yield {"kind": "task", "n": k}
    states = ["absent", "linked", "SUCCESS", "FAILURE", "NOT_EXECUTED", "UNDEFINED", "NOT_COMPLETED"]
    for a, b in itertools.product(states, repeat=2):
        yield {"kind": "run", "head": [a, b], "all": True}
    yield {"kind": "usage"}
    for i in range(len(BATCH)):
        yield {"kind": "batch", "first": i, "n": 3}


def run_case(case, ctx):
    {"job": job, "times": times, "task": task, "run": run, "usage": usage, "batch": batch}[case["kind"]](case, ctx)


def files(jobdir, err, out, product, core=False, log=False, name="job", when="2026-11-19T22-10-05", ext=".h5"):
    """name: the files are called as bsub is told to by the task runners (out_job_<date>.out) or plainly (job.out)"""
    jobdir.mkdir(parents=True, exist_ok=True)
    for kind, text in (("err", err), ("out", out)):
        if text is not None:
            (jobdir / (f"{kind}_job_{when}.{kind}" if name == "bsub" else f"job_{when}.{kind}")).write_text(text)
    if product is not None:
        (jobdir / f"cl_WL{ext}").write_bytes(b"x" * product)
    if core:
        (jobdir / "core.1234").write_bytes(b"c")
    if log:
        (jobdir / "logfile_compute_cls.log").write_text("x")
    for stray in ("zz_warnings.err", "zz_other.out", "score.12", "core.txt"):
        (jobdir / stray).write_text("Traceback: not of the run\nJob 9\n")
    (jobdir / f"job_{jobdir.name}_{when}.sh").write_text("#!/bin/bash\n")
    return jobdir


def status_of(err, out, product):
    if err is None:
        return "NOT_EXECUTED" if out is None else "UNDEFINED"
    if err:
        return "FAILURE"
    return "SUCCESS" if product is not None else "UNDEFINED"


def report_of(text, name):
    """fields of one job of a report"""
    part = [p for p in re.split(r"^## ", text, flags=re.M)[1:] if p.splitlines()[0] == name]
    if len(part) != 1:
        return None
    f = dict(re.findall(r"^\s*- ([A-Za-z ]+?):[ ]?(.*)$", part[0], flags=re.M))
    f["text"] = part[0]
    return f


def hms(s):
    s = int(s)
    return f"{s // 3600}h {s // 60 % 60}m {s % 60}s"


def job(case, ctx):
    from seyfert.main.report_maker import JobReport
    err = ERRS[case["err"]]
    name = ("bsub", "plain")[case["name"]]
    start, secs = SPANS[3]
    outs = [None] + [outtext(4321, start, secs, h) for h in HOSTS] + [outtext(77, start, secs, times=False)]
    with ctx.scratch() as d:
        combos = itertools.product(range(len(outs)), (None, 0, 2_500_000, 1_234_567), (False, True), (False, True), (False, True))
        for i, (o, product, core, log, twice) in enumerate(combos):
            out = outs[o]
            jd = files(d / f"dvar_h_step_p_{i}", err, out, product, core, log, name)
            if twice:
                # an earlier submission that failed, and one that went well: the last one counts
                files(jd, "old failure" if not err else "", outtext(11, start, 5, ("farm99",)) if out is not None else None, None,
                      name=name, when="2025-01-02T03-04-05")
                if err is None:
                    for f in jd.glob("*job*.err"):
                        f.unlink()
                if out is None:
                    for f in jd.glob("*job*.out"):
                        f.unlink()
            what = f"job with error file {err!r}, output {o}, product {product}, core {core}, twice {twice}, {name} names"
            with ctx.guard("report", what):
                r = JobReport(jobdir=jd, output_pattern="*.h5")
                r.setUp()
                text = r.getReport()
                f = report_of(text, jd.name)
                want = status_of(err, out, product)
                ctx.eq((r.status, f["Status"]), (want, want), "status", what)
                ctx.eq(r.job_id, None if out is None else ("77" if o == 4 else "4321"), "job-id", what)
                ctx.eq(f["JobID"], str(r.job_id), "job-id", what)
                wanted = 0 if out is None or o == 4 else secs
                ctx.eq(r.execution_time_secs, wanted, "time", what)
                ctx.check(f["Execution Time"].startswith(hms(wanted) + " "), "time-text", f"{what}: {f['Execution Time']}")
                hosts = [] if out is None else [x for x in (HOSTS[o - 1] if o < 4 else ("farm12",)) if not x.startswith("farmui")]
                ctx.eq(list(r.exec_hosts), hosts, "hosts", what)
                ctx.eq(f["Execution Hosts"].split(), hosts, "hosts", what)
                dumped = want == "FAILURE" and (core or "ore Dump" in err)
                ctx.eq(bool(r.core_dumped), dumped, "core", what)
                if want == "SUCCESS":
                    ctx.eq(f.get("Name"), "cl_WL.h5", "product", what)
                    ctx.eq(float(f.get("Size", "x").split()[0]), product / 1e6, "size", what)
                else:
                    ctx.check("Name" not in f and r.output_size_MB == 0, "product", what)
                if want in ("FAILURE", "UNDEFINED"):
                    ctx.eq(f.get("Core Dump"), str(dumped), "core-text", what)
                if want == "FAILURE":
                    ctx.check(err in f["text"], "err-text", what)
            ctx.state(("job", err, o, product, core, log, twice, name))
            ctx.step()
    ctx.trace()


def times(case, ctx):
    from seyfert.main.report_maker import JobReport
    with ctx.scratch() as d:
        for i, (start, secs) in enumerate(SPANS[case["first"]:case["first"] + 7]):
            jd = files(d / f"j{i}", "", outtext(1, start, secs), 10, name="bsub")
            r = JobReport(jobdir=jd, output_pattern="*.h5")
            r.setUp()
            what = f"job started {stamp(start)} that lasted {secs} s"
            ctx.eq(r.execution_time_secs, secs, "duration", what)
            ctx.check(report_of(r.getReport(), jd.name)["Execution Time"].startswith(hms(secs) + " "), "duration-text", what)
            ctx.state(("times", str(start), secs))
            ctx.step()
    ctx.trace()


JOBS = {"SUCCESS": ("", True, 1_000_000), "FAILURE": ("boom", True, 2_000_000), "CORE": ("core dump", True, None), "LOST": ("Core Dump", False, None),
        "NOT_EXECUTED": (None, False, None), "UNDEFINED": ("", True, None)}

DUMPED = ("CORE", "LOST")


def make_task(taskdir, jobs, ids=None, secs=None):
    ext = ".csv" if taskdir.name == "Fisher" else ".h5"
    taskdir.mkdir(parents=True)
    (taskdir / "stray.txt").write_text("x")
    for i, j in enumerate(jobs):
        err, out, product = JOBS[j]
        text = outtext(ids[i] if ids else 9 + i, SPANS[0][0], secs[i] if secs else 100 * i, (f"farm{i}",)) if out else None
        files(taskdir / f"job{i}", err, text, product, name="bsub", ext=ext)


def task_status(jobs):
    n = len(jobs)
    kinds = ["FAILURE" if j in DUMPED else j for j in jobs]
    if "FAILURE" in kinds:
        return "FAILURE"
    for s in ("SUCCESS", "NOT_EXECUTED"):
        if kinds.count(s) == n:
            return s
    return "NOT_COMPLETED" if set(kinds) == {"SUCCESS", "NOT_EXECUTED"} else "UNDEFINED"


def check_task(ctx, t, summary, jobs, secs, what):
    kinds = ["FAILURE" if j in DUMPED else j for j in jobs]
    n = len(jobs)
    want = task_status(jobs)
    ctx.eq(t.status, want, "task-status", what)
    ctx.eq((t.n_jobs, t.n_succeeded_jobs, t.n_failed_jobs, t.n_not_executed_jobs, t.n_undefined_jobs, t.n_core_dumps),
           (n, kinds.count("SUCCESS"), kinds.count("FAILURE"), kinds.count("NOT_EXECUTED"), kinds.count("UNDEFINED"), sum(j in DUMPED for j in jobs)),
           "task-counts", what)
    ctx.check(f": {t.workdir.name} {want} #" in summary, "task-summary", f"{what}: {summary}")
    if want == "NOT_EXECUTED":
        return
    ctx.check(f"{kinds.count('SUCCESS')}/{n} jobs succeeded" in summary and f"{kinds.count('FAILURE')}/{n} jobs failed" in summary
              and f"{sum(j in DUMPED for j in jobs)}/{kinds.count('FAILURE')} failed jobs core dumped" in summary, "task-summary", f"{what}: {summary}")
    mean = sum(secs[i] for i, j in enumerate(jobs) if JOBS[j][1]) / n
    ctx.check(abs(t.mean_exec_time - mean) < 1e-6, "task-mean", f"{what}: {t.mean_exec_time}, expected {mean}")
    ctx.check(f"Total output size: {kinds.count('SUCCESS') * 1.0:.3f} MB" in summary, "task-size", f"{what}: {summary}")
    for title, kind in (("failed", "FAILURE"), ("succeeded", "SUCCESS")):
        got = re.search(rf"Hosts on which jobs {title}: (.*)", summary)
        hosts = {f"farm{i}" for i, k in enumerate(kinds) if k == kind and JOBS[jobs[i]][1]}
        ctx.eq({h for h in got.group(1).split(", ") if h} if got else None, hosts, "task-hosts", f"{what} {title}")


def task(case, ctx):
    from seyfert.main.report_maker import TaskReportMaker
    n = case["n"]
    ids = (998, 1001, 12, 30000)
    for k, jobs in enumerate(itertools.product(JOBS, repeat=n)):
        secs = [(86400, 100, 7, 90001)[(i + k) % 4] for i in range(n)]
        with ctx.scratch() as d:
            td = d / TASKS[k % 4]
            make_task(td, jobs, ids, secs)
            what = f"{td.name} with jobs {jobs}"
            with ctx.guard("task-report", what):
                t = TaskReportMaker(td)
                t.buildJobsReports()
                t.evaluateStatus()
                t.buildReportSummary()
                check_task(ctx, t, t.summary, jobs, secs, what)
                with open(d / "r", "w") as rf, open(d / "s", "w") as sf:
                    t.writeToFiles(report_outfile=rf, summary_outfile=sf)
                ctx.eq((d / "s").read_text(), t.summary, "summary-file", what)
                text = (d / "r").read_text()
                ctx.check(text.startswith(t.summary), "report-file", what)
                for i, j in enumerate(jobs):
                    f = report_of(text, f"job{i}")
                    if ctx.check(f is not None, "report-file", f"{what}: job{i}"):
                        ctx.eq(f["Status"], "FAILURE" if j in DUMPED else j, "report-file", f"{what}: job{i}")
                if all(JOBS[j][1] for j in jobs):
                    order = [int(x) for x in re.findall(r"- JobID: (\d+)", text)]
                    ctx.eq(order, sorted(order), "order", f"{what}: jobs by number")
        ctx.state(("task", jobs))
        ctx.step()
    ctx.trace()


COMPOSITION = {"SUCCESS": ("SUCCESS", "SUCCESS"), "FAILURE": ("SUCCESS", "FAILURE"), "NOT_EXECUTED": ("NOT_EXECUTED",),
               "UNDEFINED": ("UNDEFINED", "SUCCESS"), "NOT_COMPLETED": ("NOT_EXECUTED", "SUCCESS")}


def run(case, ctx):
    from seyfert.main.report_maker import RunReportMaker
    states = ["absent", "linked"] + list(COMPOSITION)
    tails = list(itertools.product(states, repeat=2))
    if not case["all"]:
        k = sum(states.index(x) * 3 ** i for i, x in enumerate(case["head"]))
        tails = [t for i, t in enumerate(tails) if (i + i // 7 + k) % 7 == 0]
    for tail in tails:
        combo = tuple(case["head"]) + tail
        with ctx.scratch() as d:
            rd = d / "run_x"
            rd.mkdir()
            for t, s in zip(TASKS, combo):
                if s == "linked":
                    make_task(d / "other" / t, ("FAILURE",))
                    (rd / t).symlink_to(d / "other" / t)
                elif s != "absent":
                    make_task(rd / t, COMPOSITION[s])
            what = f"run with tasks {dict(zip(TASKS, combo))}"
            own = [s for s in combo if s in COMPOSITION]
            if all(s == "SUCCESS" for s in own):
                want = "SUCCESS"
            elif "FAILURE" in own:
                want = "FAILURE"
            else:
                want = "NOT_COMPLETED" if set(own) <= {"SUCCESS", "NOT_EXECUTED"} else "UNDEFINED"
            with ctx.guard("run-report", what):
                here = os.getcwd()
                try:
                    spelling = (len(own) + sum(len(s) for s in combo)) % 4
                    if spelling == 2:
                        os.chdir(d)
                    if spelling == 3:
                        (d / "deep").mkdir()
                        (d / "deep" / "er").symlink_to(d)
                    arg = [rd, str(rd), Path("run_x"), d / "deep" / "er" / "run_x"][spelling]
                    r = printed = None
                    if sum(len(s) for s in combo) % 8 < 4:
                        printed = program(ctx, [str(arg)], d, what, "do_jobs_report")
                    else:
                        r = RunReportMaker(arg)
                        r.buildTaskReportMakers()
                        r.writeReportFiles()
                finally:
                    os.chdir(here)
                if r is not None:
                    ctx.eq(r.status, want, "run-status", what)
                summary = (rd / "summary_run_x.log").read_text()
                text = (rd / "report_run_x.log").read_text()
                ctx.check(summary.startswith(f"Run run_x: {want}\n") and text.startswith(f"Run run_x: {want}\n"), "run-summary", f"{what}: {summary}")
                ctx.eq(r.run_summary if r is not None else printed.rstrip("\n"), summary if r is not None else summary.rstrip("\n"), "run-summary", what)
                heads = re.findall(r"WORKDIR: (\w+) (\w+) #", summary)
                ctx.eq(heads, [(t, s) for t, s in zip(TASKS, combo) if s in COMPOSITION], "run-tasks", what)
                ctx.eq(re.findall(r"WORKDIR: (\w+) (\w+) #", text), heads, "run-report", what)
                ctx.eq(len(re.findall(r"^## ", text, flags=re.M)), sum(len(COMPOSITION[s]) for s in own), "run-jobs", what)
        ctx.state(("run", combo))
        ctx.step()
    ctx.trace()


def usage(case, ctx):
    import numpy as np
    from seyfert.main.bsub_utils import BsubInterface
    names = ("auto_corrs", "wlwl_phph_wlph", "spsp", "phsp_wlsp_2020-b_5")
    for year in (1999, 2019, 2020, 2021, 2022, 2026, 2030, 2101):
        for k in range(1, 5):
            with ctx.scratch() as d:
                want = {}
                for i, n in enumerate(names[:k]):
                    start = datetime.datetime(year, 12, 31 - i, 9, 8, 7)
                    secs = (5, 86399, 86400 + 61, 3 * 86400)[(i + k) % 4]
                    mem = (100.5 + i, 90.0 + i, 2048.0, 1947.5 - i)
                    (d / f"out_{n}_{start:%Y-%m-%dT%H-%M-%S}.out").write_text(outtext(i, start, secs, mem=mem, cpu=2.5 * i))
                    want[n] = (start, start + datetime.timedelta(seconds=secs), secs, 2.5 * i) + mem
                (d / "err_spsp_x.err").write_text("")
                what = f"{k} jobs of {year}"
                with ctx.guard("usage", what):
                    t = BsubInterface().getResourceUsageTable(d)
                    got = {r["fisher"]: (r["start_time"], r["end_time"], r["duration_s"], r["cpu_time_s"], r["max_mem_MB"], r["avg_mem_MB"],
                                         r["req_mem_MB"], r["delta_mem_MB"]) for _, r in t.iterrows()}
                    ctx.eq(got, want, "usage", what)
                    ctx.check(all(r["duration_h_m_s_ms"].startswith(hms(r["duration_s"]) + " ") for _, r in t.iterrows()), "usage-text", what)
            ctx.state(("usage", year, k))
            ctx.step()
    ctx.trace()


# ---- report_batch_jobs
def program(ctx, argv, cwd, what, name="report_batch_jobs"):
    """stdout of a program, run in this process"""
    import contextlib
    import io
    import logging
    import runpy
    import sys
    saved = sys.argv, os.getcwd(), list(logging.getLogger().handlers), logging.getLogger().level
    out = io.StringIO()
    off = logging.root.manager.disable
    logging.disable(logging.NOTSET)
    try:
        os.chdir(cwd)
        sys.argv = [name] + argv
        with contextlib.redirect_stdout(out), ctx.guard("batch-exception", what):
            runpy.run_path(f"/repo/bin/{name}", run_name="__main__")
    finally:
        logging.disable(off)
        sys.argv = saved[0]
        os.chdir(saved[1])
        logging.getLogger().handlers[:] = saved[2]
        logging.getLogger().setLevel(saved[3])
    return out.getvalue()


def batch(case, ctx):
    """every content of up to three output files, in one or several run directories, found by default or by another pattern"""
    n = 0
    for k in range(case["n"]):
        for tail in itertools.product(range(len(BATCH)), repeat=k):
            kinds = (case["first"],) + tail
            n += 1
            with ctx.scratch() as d:
                names = []
                for i, b in enumerate(kinds):
                    run = f"run_{'abc'[i if n % 2 else 0]}"
                    sub = d / "w" / (run if n % 3 else "other") / ("batch_logs/out" if n % 3 else "logs")
                    sub.mkdir(parents=True, exist_ok=True)
                    names.append(f"out_j{i}_2026-11-1{i}T22-10-05.out")
                    (sub / names[-1]).write_text(BATCH[b])
                    (sub / names[-1].replace("out_", "err_").replace(".out", ".err")).write_text("Exited\n")
                (d / "w" / "out_stray.out").write_text("Exited\n")
                argv = [["-wd", str(d / "w")], ["--workdir", "w"], []][n % 7 % 3]
                argv = argv + ([] if n % 3 else ["-pt", "other/*/out*.out"])
                text = program(ctx, argv, d if argv[:1] in (["-wd"], ["--workdir"]) else d / "w", f"{kinds}")
                good = [BATCH[b].splitlines().count("Successfully completed.") > 0 for b in kinds]
                said = "All found runs successfully completed" in text
                ctx.check(said == all(good), "batch-all", f"{kinds}: {text[-300:]}")
                errors = "\n".join(x for x in text.splitlines() if "ERROR" in x)
                ctx.check([x in errors for x in names] == [not g for g in good] and "stray" not in errors, "batch-named", f"{kinds}: {errors}")
                ctx.state(("batch", kinds))
                ctx.step()
    ctx.trace()

"""kill_job_submitter: the running submitters and orchestrators are ended, the other processes live on."""
import itertools
import os
import pwd
import signal
import subprocess
import time
from pathlib import Path

from vlib.core import REPO

PROPERTY = "P33"
LEVEL = "model_checking"
RULE = ("all process tables of up to two (three) processes out of an alphabet of commands, in all orders, with users and other columns taken in turn, and one table of all of them; the table is what a stand-in of ps prints, its "
        "processes are children of the check which do nothing, and what is judged is which of them are ended; a state is the table")
BOUNDS = {"quick": "17 commands, 8 users, tables of 0, 1, 2 and 17 processes", "thorough": "tables of 3 processes as well"}
WORKERS = 8
# command, whether it is one of those to be ended
COMMANDS = (
    ("python3 /opt/seyfert/bin/job_submitter -id x -ex batch -cl", True), ("/usr/bin/python3 /home/u/.local/bin/orchestrate_run -cfg conf.json", True), ("job_submitter -pmm", True), ("orchestrate_run", True),
    ("/opt/bin/job_submitter", True), ("python3 bin/job_submitter --workdir /data/run_1 -fcfg a.json b.json", True), ("/bin/sh /opt/seyfert/bin/orchestrate_run -rds rundirs.txt -pmms pmm", True), ("python3 ./job_submitter", True),
    ("python3 /opt/seyfert/bin/kill_job_submitter", False), ("-bash", False), ("sleep 100", False), ("python3 /opt/seyfert/bin/compute_cls --config 12 /data/run", False), ("ps -ef", False), ("python3 /opt/seyfert/bin/run_seyfert -fcfg x.json", False),
    ("bsub -q long job_array", False), ("[kworker/0:1-events]", False), ("python3 submitter job", False))
USERS = ("root", "luca", "lpaganin2", "lucapag+", "u_01", "1042", "Luca-P", "a.b")
PS = "UID          PID    PPID  C STIME TTY          TIME CMD\n"


def tables(tier):
    n = range(len(COMMANDS))
    yield ()
    for k in (1, 2) if tier == "quick" else (1, 2, 3):
        yield from itertools.product(n, repeat=k)
    yield tuple(n)
    yield tuple(reversed(n))


def cases(tier):
    n = 24
    for i in range(n):
        yield {"part": i, "parts": n, "tier": tier}


def idle():
    """a process that does nothing, deaf to everything that can be ignored"""
    pid = os.fork()
    if pid == 0:
        try:
            os.setsid()
            for s in (signal.SIGTERM, signal.SIGINT, signal.SIGHUP):
                signal.signal(s, signal.SIG_IGN)
            nobody()
            signal.alarm(300)
            while True:
                signal.pause()
        finally:
            os._exit(0)
    return pid


def nobody():
    u = pwd.getpwnam("nobody")
    if os.geteuid() == 0:
        os.setgroups([])
        os.setgid(u.pw_gid)
        os.setuid(u.pw_uid)


def ended(pids, wait):
    """which of these children are over; waits some time for those which are expected to"""
    over = set()
    until = time.time() + 3
    while True:
        for p in set(pids) - over:
            if os.waitpid(p, os.WNOHANG)[0]:
                over.add(p)
        if wait <= over or time.time() > until:
            return over
        time.sleep(0.01)


def run_case(case, ctx):
    with ctx.scratch() as d:
        d = Path(os.path.realpath(d))
        os.chmod(d, 0o755)
        os.chmod(d.parent, 0o711)
        (d / "bin").mkdir()
        (d / "bin" / "ps").write_text(f'#!/bin/sh\ncase "$*" in *e*|*A*|*x*) cat {d}/table;; *) head -n 1 {d}/table;; esac\n')
        (d / "kill_job_submitter").write_text((REPO / "bin" / "kill_job_submitter").read_text())
        for p in ("bin", "bin/ps", "kill_job_submitter"):
            os.chmod(d / p, 0o755)
        for i, t in enumerate(tables(case["tier"])):
            if i % case["parts"] == case["part"] and not one(ctx, d, t, i):
                break       # it takes its time to see that a process does not end


def one(ctx, d, table, i):
    ctx.trace()
    ctx.step()
    procs = [idle() for _ in table]
    parent = idle()
    try:
        lines, want = [], set()
        for k, (c, pid) in enumerate(zip(table, procs)):
            command, ours = COMMANDS[c]
            user = USERS[(i + k * 3 + c) % len(USERS)]
            # the columns of ps grow with their contents
            lines.append(f"{user:<8} {pid:>7} {parent:>7}  {(i + k) % 2} {('10:15', 'Nov19', '2025')[k % 3]} {('?       ', 'pts/3   ', 'tty1    ')[(i + k) % 3]} {('00:00:00', '3-04:05:06')[i % 2]} {command}")
            if ours:
                want.add(pid)
        (d / "table").write_text(PS + "".join(x + "\n" for x in lines))
        ctx.state(table)
        env = dict(os.environ, PATH=f"{d}/bin:" + os.environ["PATH"], PYTHONPATH=str(REPO), PYTHONDONTWRITEBYTECODE="1", HOME=str(d))
        r = subprocess.run(["python3" if not Path("/opt/venv/bin/python").exists() else "/opt/venv/bin/python", str(d / "kill_job_submitter")], cwd=d, env=env, capture_output=True, text=True, timeout=120,
                           start_new_session=True, preexec_fn=nobody, stdin=subprocess.DEVNULL)
        over = ended(procs + [parent], want)
        what = "\n".join(lines)
        name = {p: f"{p} {COMMANDS[c][0]}" for p, c in zip(procs, table)}
        name[parent] = f"{parent}, the parent of these"
        ctx.check(r.returncode == 0, "ends", lambda: f"ended with {r.returncode}: {r.stderr[-300:]}; table:\n{what}")
        ctx.check(want <= over, "survivors", lambda: f"still running: {[name[p] for p in want - over]}; table:\n{what}")
        ctx.check(over <= want, "victims", lambda: f"ended: {[name[p] for p in over - want]}; table:\n{what}")
        procs_left = [p for p in procs + [parent] if p not in over]
        ctx.check(("No matching process found" in r.stdout) == (not want), "says", lambda: f"{len(want)} processes to end, said {r.stdout[-300:]!r}")
    except BaseException:
        procs_left = procs + [parent]
        raise
    finally:
        for p in procs_left:
            try:
                os.kill(p, signal.SIGKILL)
                os.waitpid(p, 0)
            except (ProcessLookupError, ChildProcessError):
                pass
    return want <= over <= want

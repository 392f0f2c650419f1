"""The programs of the repository, run for real from the shell scripts and batch jobs that call them.

On PATH each program of /repo/bin is a small shell script that asks this process to run it (saving a second of imports per
job): the request carries the working directory and arguments; a thread runs the program's file as __main__ and answers with its exit
status and what it wrote on stderr. `bsub` keeps the command; `bjobs` runs what the schedule says and shows the statuses.
"""
import contextlib
import io
import logging
import os
import re
import runpy
import shlex
import subprocess
import sys
import threading
import time
import traceback
from pathlib import Path

CLIENT = """#!/bin/sh
D="{d}"
me="$$.{name}"
mkfifo "$D/answer.$me"
{{ printf '%s\\n' "$PWD"; for a in "$@"; do printf '%s\\n' "$a"; done; }} > "$D/request.$me"
echo "{name} $me" > "$D/server"
read code < "$D/answer.$me"
rm -f "$D/answer.$me"
[ -s "$D/stdout.$me" ] && cat "$D/stdout.$me"
[ -s "$D/stderr.$me" ] && cat "$D/stderr.$me" >&2
exit $code
"""

PROGRAMS = ("compute_cls", "compute_derivatives", "compute_fisher_matrix", "evaluate_final_results", "run_seyfert",
            "job_submitter", "compute_delta_cls", "compute_pmm", "orchestrate_run")


class Shop:
    """where programs run. log: what ran, in order; faults: {n: how} makes the n-th program fail"""

    def __init__(self, root, repo="/repo"):
        self.d = Path(root)
        self.bin = self.d / "bin"
        self.bin.mkdir(parents=True)
        self.repo = Path(repo)
        for name in PROGRAMS + ("bsub", "bjobs"):
            (self.bin / name).write_text(CLIENT.format(d=self.d, name=name))
            (self.bin / name).chmod(0o755)
        os.mkfifo(self.d / "server")
        self.reset()

    def reset(self, schedule=None, faults=None):
        self.log, self.queue, self.status, self.bsub_args = [], {}, {}, {}
        self.schedule = schedule or (lambda waiting: waiting[:1])
        self.faults = faults or {}
        self.n_run = 0
        self.clock = 0.0

    # ---- programs
    def program(self, name, argv, cwd):
        i = self.n_run
        self.n_run += 1
        self.log.append((name, tuple(argv), str(cwd)))
        how = self.faults.get(i) or self.faults.get(name)
        if how == "silent":
            return 3, "", ""
        if how == "stderr":
            return 1, "", "Traceback (most recent call last):\nboom\n"
        if how == "killed":
            return 137, "", ""
        if how == "late":
            self.call(name, argv, cwd, io.StringIO())
            return 1, "", ""
        err, out = io.StringIO(), io.StringIO()
        code = self.call(name, argv, cwd, err)
        return code, out.getvalue(), err.getvalue()

    def call(self, name, argv, cwd, err):
        """run a program's file as __main__, in this process"""
        saved = sys.argv, os.getcwd(), list(logging.getLogger().handlers), dict(os.environ)
        code = 0
        try:
            sys.argv = [str(self.repo / "bin" / name)] + list(argv)
            os.chdir(cwd)
            runpy.run_path(sys.argv[0], run_name="__main__")
        except SystemExit as e:
            code = 0 if e.code in (None, 0) else e.code if isinstance(e.code, int) else 1
        except BaseException:
            code = 1
            err.write(traceback.format_exc())
        finally:
            sys.argv = saved[0]
            os.chdir(saved[1])
            for h in list(logging.getLogger().handlers):
                if h not in saved[2]:
                    logging.getLogger().removeHandler(h)
                    h.close()
            os.environ.clear()
            os.environ.update(saved[3])
        return code

    # ---- batch system
    def bsub(self, argv, cwd):
        n = 1000 + len(self.queue)
        opts, i = {}, 0
        while i < len(argv) and argv[i].startswith("-"):
            if argv[i].startswith("-R") and len(argv[i]) > 2:
                i += 1
            else:
                opts[argv[i]] = argv[i + 1]
                i += 2
        self.queue[n] = (" ".join(argv[i:]), opts, cwd)
        self.status[n] = "PEND"
        self.log.append(("bsub", n, self.queue[n][0]))
        return 0, f"Job <{n}> is submitted to queue <any>.\n", ""

    def bjobs(self, argv, cwd):
        ids = [int(a) for a in argv if a.isdigit()]
        waiting = [j for j in ids if self.status.get(j) == "PEND"]
        for j in self.schedule(waiting):
            cmd, opts, wd = self.queue[j]
            with open(Path(wd) / opts["-o"], "a") as o, open(Path(wd) / opts["-e"], "a") as e:
                code = subprocess.run(cmd, shell=True, cwd=wd, stdout=o, stderr=e).returncode
            self.status[j] = "DONE" if code == 0 else "EXIT"
        return 0, "JOBID USER STAT QUEUE\n" + "".join(f"{j} luca2 {self.status[j]} long\n" for j in ids if j in self.status), ""

    # ---- server
    def serve(self):
        fd = os.open(self.d / "server", os.O_RDWR)
        buf = b""
        while True:
            buf += os.read(fd, 4096)
            while b"\n" in buf:
                line, buf = buf.split(b"\n", 1)
                if line == b"stop":
                    os.close(fd)
                    return
                threading.Thread(target=self.answer, args=(line.decode(),), daemon=True).start()

    def answer(self, line):
        name, me = line.split(" ", 1)
        req = (self.d / f"request.{me}").read_text().splitlines()
        try:
            fn = {"bsub": self.bsub, "bjobs": self.bjobs}.get(name)
            code, out, err = fn(req[1:], req[0]) if fn else self.program(name, req[1:], req[0])
        except BaseException:
            code, out, err = 99, "", "HARNESS " + traceback.format_exc()
            self.log.append(("harness", traceback.format_exc()))
        (self.d / f"stdout.{me}").write_text(out)
        (self.d / f"stderr.{me}").write_text(err)
        with open(self.d / f"answer.{me}", "w") as f:
            f.write(f"{code}\n")

    @contextlib.contextmanager
    def open(self, data_dir):
        env = dict(os.environ)
        sleep, now = time.sleep, time.time
        os.environ["PATH"] = f"{self.bin}:{os.environ['PATH']}"
        os.environ["SEYFERT_INPUT_DATA"] = str(data_dir)
        os.environ["HOSTNAME"] = "here"
        os.environ.pop("VIRTUAL_ENV", None)

        def nap(s):
            self.clock += s
            if self.clock > 1e6:
                raise RuntimeError("endless wait")
        time.sleep = nap
        time.time = lambda: now() + self.clock
        t = threading.Thread(target=self.serve, daemon=True)
        t.start()
        try:
            yield self
        finally:
            with open(self.d / "server", "w") as f:
                f.write("stop\n")
            t.join(10)
            time.sleep, time.time = sleep, now
            os.environ.clear()
            os.environ.update(env)
            for f in self.d.glob("*.*"):
                f.unlink()


def words(cmd):
    return shlex.split(cmd)

"""A batch system that shows what it is told to: `bsub` and `bjobs` on PATH, answering from files, in virtual time."""
import contextlib
import os
import time
from pathlib import Path

BSUB = """#!/bin/sh
D="$FAKE_LSF"
read n < "$D/nsub"
echo $((n+1)) > "$D/nsub"
read p < "$D/npoll"
read base < "$D/base"
echo $p > "$D/sub.$n"
for a in "$@"; do printf '%s\\n' "$a"; done > "$D/args.$n"
if [ -f "$D/refuse.$n" ]; then echo "sub $n $FAKE_CLOCK refused" >> "$D/log"; echo "Request aborted by esub. Job not submitted." >&2; exit 255; fi
echo "sub $n $FAKE_CLOCK" >> "$D/log"
echo "Job <$((base+n))> is submitted to queue <any>."
"""

BJOBS = """#!/bin/sh
D="$FAKE_LSF"
read p < "$D/npoll"
read base < "$D/base"
echo $((p+1)) > "$D/npoll"
ids=""
rows=0
if [ -f "$D/header" ]; then read h < "$D/header"; else h=""; fi
for a in "$@"; do
  case "$a" in
    -*) ;;
    *[!0-9]*) ;;
    *)
      ids="$ids $a"
      i=$((a-base))
      if [ -f "$D/sub.$i" ]; then
        read s < "$D/sub.$i"
        k=$((p-s))
        f="$D/h.$i"; [ -f "$f" ] || f="$D/h.else"
        line=""; c=0
        while IFS= read -r l; do line="$l"; [ $c -eq $k ] && break; c=$((c+1)); done < "$f"
        if [ "$line" = "-" ]; then echo "Job <$a> is not found" >&2
        else [ -n "$h" ] && { printf '%s\\n' "$h"; h=""; }; printf '%s\\n' "$a $line"; fi
      fi
      ;;
  esac
done
echo "poll $p $FAKE_CLOCK$ids" >> "$D/log"
exit 0
"""


class Endless(BaseException):
    """the code under test goes on waiting when it should have ended"""


class Cluster:
    def __init__(self, root: Path, limit=1e6):
        self.d = root
        self.bin = root / "bin"
        self.bin.mkdir()
        for name, text in (("bsub", BSUB), ("bjobs", BJOBS)):
            (self.bin / name).write_text(text)
            (self.bin / name).chmod(0o755)
        self.limit = limit
        self.reset()

    def reset(self, header=True, base=1000):
        for f in self.d.glob("*.*"):
            if f.is_file():
                f.unlink()
        (self.d / "nsub").write_text("0\n")
        (self.d / "base").write_text(f"{base}\n")
        (self.d / "npoll").write_text("0\n")
        (self.d / "log").write_text("")
        if header:
            (self.d / "header").write_text("JOBID USER STAT QUEUE FROM_HOST EXEC_HOST JOB_NAME SUBMIT_TIME\n")
        elif (self.d / "header").exists():
            (self.d / "header").unlink()
        self.clock = 0.0
        self.naps = 0

    def history(self, job, rows, submitted=False):
        """rows: what bjobs shows of the job at each poll after its submission (None: not listed)"""
        (self.d / f"h.{job}").write_text("".join(("-" if r is None else r) + "\n" for r in rows))
        if submitted:
            (self.d / f"sub.{job}").write_text("0\n")

    def refuse(self, job):
        (self.d / f"refuse.{job}").write_text("")

    def events(self):
        out = []
        for line in (self.d / "log").read_text().splitlines():
            p = line.split()
            if p[0] == "poll":
                out.append(("poll", int(p[1]), float(p[2]), tuple(int(x) for x in p[3:])))
            else:
                out.append(("refused" if p[-1] == "refused" else "sub", int(p[1]), float(p[2])))
        return out

    def args(self, job):
        return (self.d / f"args.{job}").read_text().splitlines()

    @contextlib.contextmanager
    def running(self):
        saved = {n: getattr(time, n) for n in ("sleep", "time", "monotonic", "perf_counter")}
        env = {k: os.environ.get(k) for k in ("PATH", "FAKE_LSF", "FAKE_CLOCK")}
        base = saved["time"]()

        def sleep(s):
            self.clock += s
            self.naps += 1
            os.environ["FAKE_CLOCK"] = repr(self.clock)
            if self.clock > self.limit or self.naps > 200000:
                raise Endless()

        time.sleep = sleep
        for n in ("time", "monotonic", "perf_counter"):
            setattr(time, n, lambda: base + self.clock)
        os.environ.update(PATH=f"{self.bin}:{os.environ['PATH']}", FAKE_LSF=str(self.d), FAKE_CLOCK=repr(self.clock))
        err = os.dup(2)
        null = os.open(os.devnull, os.O_WRONLY)
        os.dup2(null, 2)
        os.close(null)
        try:
            yield self
        finally:
            os.dup2(err, 2)
            os.close(err)
            for n, f in saved.items():
                setattr(time, n, f)
            for k, v in env.items():
                if v is None:
                    os.environ.pop(k, None)
                else:
                    os.environ[k] = v

"""Shared machinery of the checks: exhaustive exploration of finite sets of cases on the real code.

A check module `checks/<ID>.py` defines

    PROPERTY  = "<ID>"
    LEVEL     = "model_checking" | "exploration" | "fault_enumeration"
    RULE      = text for the evidence file
    def cases(tier):      yields JSON-able cases (a case = one bounded execution, history or subtree)
    def run_case(case, ctx):   executes it on the code in /repo; reports through ctx

`ctx.fail(key, message)` reports a violation, `ctx.state(...)`, `ctx.step()`, `ctx.trace()` count what was covered.
Anything the code under test raises on a valid case is a violation too (ctx.guard / the driver's own wrapper).
"""
import collections
import contextlib
import hashlib
import io
import json
import logging
import multiprocessing
import os
import re
import shutil
import sys
import tempfile
import time
import traceback
import warnings
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path("/repo")
EVIDENCE = VERIF / "evidence"
KNOWN = VERIF / "known_findings.txt"


class Violation(Exception):
    def __init__(self, key, message):
        super().__init__(message)
        self.key = key
        self.message = message


class HarnessError(Exception):
    pass


def in_repo(tb) -> bool:
    """True if any frame of the traceback is code of the repository."""
    for fr in traceback.extract_tb(tb):
        try:
            p = os.path.realpath(fr.filename)
        except OSError:
            continue
        if p.startswith(str(REPO) + "/"):
            return True
    return False


def short(obj, n=300):
    s = obj if isinstance(obj, str) else repr(obj)
    return s if len(s) <= n else s[: n - 3] + "..."


def odd_result(e):
    """an exception of the check itself that a result of unexpected form (shape, type, keys, absent value) explains; none is raised on results of the right form"""
    text = str(e)
    if isinstance(e, FileNotFoundError) or (isinstance(e, OSError) and "open file" in text):
        return bool(_SCRATCH) and str(_SCRATCH) in text      # a product the program was to leave in the directory of the case
    if isinstance(e, (HarnessError, ImportError, OSError, MemoryError, UnboundLocalError, NameError)):
        return False
    if isinstance(e, AttributeError):
        return re.match(r"'(NoneType|float|int|bool|str|bytes|list|tuple|dict|set|numpy\.\w+|ndarray|DataFrame|Series|Index)' object", text) is not None
    if isinstance(e, TypeError):
        return "argument" not in text
    return isinstance(e, (ValueError, LookupError, ArithmeticError, AssertionError))


class Ctx:
    """Per-case context; collected by the driver, possibly from a worker process."""

    def __init__(self, case, scratch):
        self.case = case
        self.scratch_root = scratch
        self.failures = []
        self.counts = collections.Counter()
        self.state_hashes = set()
        self.sample = None
        self._n = 0

    # ---- coverage
    def state(self, obj):
        h = hashlib.blake2b(repr(obj).encode(), digest_size=8).digest()
        self.state_hashes.add(h)

    def step(self, n=1):
        self.counts["transitions"] += n

    def trace(self, n=1):
        self.counts["traces"] += n

    def eval(self, n=1):
        self.counts["evaluations"] += n

    def count(self, name, n=1):
        self.counts[name] += n

    def note(self, sample):
        if self.sample is None:
            self.sample = sample

    # ---- verdicts
    def fail(self, key, message):
        self.failures.append((str(key), short(message, 1200)))

    def check(self, cond, key, message=""):
        self.counts["assertions"] += 1
        if not cond:
            self.fail(key, message() if callable(message) else message)
        return bool(cond)

    def eq(self, got, want, key, message=""):
        return self.check(got == want, key, lambda: f"{message} got {short(got)} expected {short(want)}")

    @contextlib.contextmanager
    def guard(self, key, message=""):
        """Whatever the code under test raises in here on a valid input is a violation."""
        try:
            yield
        except (KeyboardInterrupt, MemoryError, HarnessError):
            raise
        except BaseException as e:
            if in_repo(e.__traceback__):
                where = [f for f in traceback.extract_tb(e.__traceback__) if f.filename.startswith(str(REPO))][-1]
                self.fail(key, f"{message} raised {type(e).__name__}: {e} at {where.filename}:{where.lineno}")
            else:
                raise

    def raises(self, exc, fn, key, message=""):
        try:
            out = fn()
        except exc:
            self.counts["assertions"] += 1
            return True
        except Exception as e:
            self.fail(key, f"{message} expected {exc}, raised {type(e).__name__}: {e}")
            return False
        self.fail(key, f"{message} expected {exc}, returned {short(out)}")
        return False

    @contextlib.contextmanager
    def scratch(self):
        self._n += 1
        d = Path(tempfile.mkdtemp(prefix="case_", dir=self.scratch_root))
        try:
            yield d
        finally:
            shutil.rmtree(d, ignore_errors=True)


_MODULE = None
_SCRATCH = None


def _init(modname, scratch):
    global _MODULE, _SCRATCH
    quiet()
    import importlib
    _MODULE = importlib.import_module(modname)
    _SCRATCH = scratch
    if hasattr(_MODULE, "init"):
        _MODULE.init()


def quiet():
    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    import numpy as np
    np.seterr(all="ignore")


def _run_one(arg):
    idx, case = arg
    ctx = Ctx(case, _SCRATCH)
    err = None
    cwd = os.getcwd()
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            _MODULE.run_case(case, ctx)
    except Violation as v:
        ctx.fail(v.key, v.message)
    except KeyboardInterrupt:
        raise
    except BaseException as e:
        txt = "".join(traceback.format_exception(type(e), e, e.__traceback__))
        if in_repo(e.__traceback__) and not isinstance(e, (HarnessError, MemoryError)):
            where = [f for f in traceback.extract_tb(e.__traceback__) if f.filename.startswith(str(REPO))][-1]
            ctx.fail("exception", f"code under test raised {type(e).__name__}: {e} "
                                  f"at {where.filename}:{where.lineno} on a valid case")
        elif odd_result(e):
            where = traceback.extract_tb(e.__traceback__)
            where = ([f for f in where if "/checks/" in f.filename] or where)[-1]
            ctx.fail("result", f"the results are not of the form compared with ({where.line}): {type(e).__name__}: {e}")
        else:
            err = txt
    finally:
        os.chdir(cwd)
    return idx, ctx.failures, dict(ctx.counts), ctx.state_hashes, ctx.sample, err


def load_known(prop):
    """known_findings.txt: lines  `known: property=<id> key=<key> <what fails>`; `fixed:` lines suppress nothing."""
    out = {}
    if KNOWN.is_file():
        for line in KNOWN.read_text().splitlines():
            if not line.startswith("known: "):
                continue
            parts = line[len("known: "):].split(" ", 2)
            p = parts[0].partition("=")[2]
            k = parts[1].partition("=")[2]
            if p == prop:
                out[k] = parts[2] if len(parts) > 2 else ""
    return out


def run(modname, replay=None):
    quiet()
    import importlib
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    prop = modname.rsplit(".", 1)[-1]
    EVIDENCE.mkdir(exist_ok=True)
    scratch = tempfile.mkdtemp(prefix=f"verif_{prop}_")
    try:
        return _run(modname, prop, tier, seed, scratch, replay, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _run(modname, prop, tier, seed, scratch, replay, t0):
    import importlib
    known = load_known(prop)
    try:
        _init(modname, scratch)
    except BaseException as e:
        if in_repo(e.__traceback__):
            # the package no longer even imports/initialises: the property cannot hold on it
            return finish(prop, tier, seed, t0, None, [(None, [("import", f"{type(e).__name__}: {e}")])],
                          {}, set(), [], known, 0)
        traceback.print_exc()
        return 2
    mod = _MODULE
    if replay:
        data = json.loads(Path(replay).read_text())
        cases = [data["case"]]
    else:
        cases = list(mod.cases(tier))
    total = collections.Counter()
    states = set()
    samples, failures, errors = [], [], []
    nproc = min(getattr(mod, "WORKERS", 8), max(1, len(cases)))
    if replay:
        nproc = 1

    def collect(res):
        idx, fails, counts, sh, sample, err = res
        total.update(counts)
        states.update(sh)
        if sample is not None and len(samples) < 6:
            samples.append(sample)
        if fails:
            failures.append((idx, fails))
        if err:
            errors.append((idx, err))

    work = list(enumerate(cases))
    if nproc == 1:
        for w in work:
            collect(_run_one(w))
    else:
        chunk = getattr(mod, "CHUNK", 1)
        mp = multiprocessing.get_context("fork")
        with mp.Pool(nproc, initializer=_init, initargs=(modname, scratch)) as pool:
            for res in pool.imap_unordered(_run_one, work, chunksize=chunk):
                collect(res)
    failures.sort(key=lambda x: x[0])
    fl = [(cases[i], f) for i, f in failures]
    if errors and not any(k not in known for _, fails in fl for k, _ in fails):
        for i, e in errors[:3]:
            print(f"HARNESS ERROR in case {short(json.dumps(cases[i]))}\n{e}")
        return 2
    return finish(prop, tier, seed, t0, mod, fl, total, states, samples, known, len(cases))


def finish(prop, tier, seed, t0, mod, failures, total, states, samples, known, ncases):
    level = getattr(mod, "LEVEL", "model_checking")
    rule = getattr(mod, "RULE", "")
    seen_known, new = {}, []
    for case, fails in failures:
        for key, msg in fails:
            if key in known:
                seen_known.setdefault(key, msg)
            else:
                new.append((case, key, msg))
    total = collections.Counter(total)
    evaluations = total.pop("evaluations", 0)
    cov = {
        "states": len(states),
        "transitions": total.pop("transitions", 0),
        "traces_validated_against_impl": total.pop("traces", 0),
    }
    if level != "model_checking":
        cov = {"evaluations": evaluations or ncases, "distinct_nontrivial": len(states)}
        total.pop("traces", 0)
        total.pop("transitions", 0)
    cov |= {
        "rule": rule,
        "work_items": ncases,
        "exhaustive": bool(getattr(mod, "EXHAUSTIVE", True)),
        "bounds": getattr(mod, "BOUNDS", {}).get(tier, "") if isinstance(getattr(mod, "BOUNDS", {}), dict) else mod.BOUNDS,
        "samples": samples or ["(no sample)"],
        "other_counts": dict(total),
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": list(getattr(mod, "ASSUMPTIONS", [])), "wall_s": round(time.time() - t0, 3),
          "violations": len(new)}
    (EVIDENCE / f"{prop}.json").write_text(json.dumps(ev, indent=1, default=str) + "\n")
    for key in known:
        if key in seen_known:
            print(f"KNOWN-FINDING: property={prop} {key}: {known[key]}")
    if not new:
        print(f"OK property={prop} tier={tier} cases={ncases} states={len(states)} "
              f"transitions={cov.get('transitions', 0)} assertions={total.get('assertions', 0)} wall={ev['wall_s']}s")
        return 0
    rep = EVIDENCE / "replays"
    rep.mkdir(exist_ok=True)
    printed = set()
    if os.environ.get("VERIF_ALL"):
        for case, key, msg in new[:int(os.environ["VERIF_ALL"])]:
            print(f"  - [{key}] {msg[:400]}")
    for i, (case, key, msg) in enumerate(new):
        if key in printed:
            continue
        printed.add(key)
        if len(printed) > 5:
            break
        f = rep / f"{prop}-{len(printed)}.json"
        f.write_text(json.dumps({"property": prop, "key": key, "message": msg, "case": case}, indent=1, default=str))
        print(f"VIOLATION property={prop} replay={f}")
        print(f"  [{key}] {msg}")
        print(f"  case: {short(json.dumps(case, default=str), 600)}")
    print(f"{len(new)} violation(s) in {len(failures)} of {ncases} cases")
    return 1

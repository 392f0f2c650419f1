"""A forecast stopped at any instant and run again in its run directory ends as one that was never stopped."""
import hashlib
import io
import os
import pickle
import zipfile
from pathlib import Path

import h5py
import numpy as np

from vlib import crash
from vlib.world import World

PROPERTY = "P14"
LEVEL = "model_checking"
RULE = ("reachable states of the run directory: every content a kill leaves at a file-system event of do_forecast, every "
        "content an interrupt (exception at that event, clean-up running) leaves, every torn version of a file that is "
        "being written; from each, the run is started again and observed in the same way, until no new state appears")
BOUNDS = {"quick": "one forecast of three probes, all its events; torn files at 3 lengths; interrupts at every event that "
                   "is not a repetition inside one file; restarts from all states, closure over second stops",
          "thorough": "torn files at 9 lengths, interrupts at every event, second interrupts"}
WORKERS = 8
CHUNK = 1
SHARDS = 8
PRODUCTS = ("norm_densities", "cls_fiducial", "cl_ders", "delta_cls", os.sep + "fisher_")


class Store:
    """pandas' HDFStore on h5py (pytables is not installed here): same interface, one group per key"""

    def __init__(self, path, mode="a", **kw):
        self.f = h5py.File(str(path), mode)

    def put(self, key, df, **kw):
        if key in self.f:
            del self.f[key]
        g = self.f.create_group(key)
        g.create_dataset("v", data=np.void(pickle.dumps(df)))
        self.f.flush()

    __setitem__ = put

    def get(self, key):
        return pickle.loads(self.f[key]["v"][()].tobytes())

    __getitem__ = get

    def keys(self, *a):
        return ["/" + k for k in self.f]

    def __iter__(self):
        return iter(self.keys())

    def __contains__(self, k):
        return k in self.f

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        self.f.close()


def init():
    import pandas as pd
    pd.HDFStore = Store

    def to_hdf(self, where, key=None, **kw):
        if isinstance(where, Store):
            where.put(key, self)
        else:
            with Store(where, kw.get("mode", "a")) as s:
                s.put(key, self)

    def read_hdf(where, key=None, **kw):
        if isinstance(where, Store):
            return where.get(key)
        with Store(where, "r") as s:
            return s.get(key)
    pd.DataFrame.to_hdf, pd.read_hdf = to_hdf, read_hdf
    pd.io.pytables.HDFStore = Store
    crash.install()


def cases(tier):
    for s in range(SHARDS):
        yield {"shard": s, "of": SHARDS, "tier": tier}


# ---------------------------------------------------------------- what the files say
_memo, _entry = {}, {}


def logical(rel, data):
    """a digest of what a file says, without creation times"""
    ext = os.path.splitext(rel)[1]
    if (ext, data) not in _memo:
        _memo[ext, data] = _logical(rel, data, hashlib.blake2b(data, digest_size=12).digest())
    return _memo[ext, data]


def _logical(rel, data, raw):
    ext = os.path.splitext(rel)[1]
    if ext in (".h5", ".hdf5"):
        try:
            return hashlib.blake2b(repr(h5content(data)).encode(), digest_size=12).digest()
        except (OSError, KeyError, RuntimeError):
            return b"unreadable"
    if ext == ".xlsx":
        try:
            return repr(sorted(zipfile.ZipFile(io.BytesIO(data)).namelist())).encode()
        except zipfile.BadZipFile:
            return b"unreadable"
    return raw


def h5content(data):
    out = {}

    def see(name, obj):
        if isinstance(obj, h5py.Dataset):
            v = obj[()]
            out[name] = v.tolist() if isinstance(v, np.ndarray) else v if not isinstance(v, np.void) else v.tobytes()
        else:
            out[name] = "group"
    with h5py.File(io.BytesIO(data), "r") as f:
        f.visititems(see)
    return out


def state_key(snap):
    total = 0
    for it in snap.items():
        h = _entry.get(it)
        if h is None:
            rel, v = it
            d = b"dir" if v is None else repr(v).encode() if isinstance(v, tuple) else logical(rel, v)
            h = _entry[it] = int.from_bytes(hashlib.blake2b(rel.encode() + b"\0" + d, digest_size=16).digest(), "big")
        total += h
    return f"{total % 2 ** 128:032x}"


def values(snap):
    """what the run produced: product -> named numbers"""
    out = {}
    for rel, v in snap.items():
        if not isinstance(v, bytes) or os.path.basename(rel).startswith(".") or rel.startswith("input_files"):
            continue
        ext = os.path.splitext(rel)[1]
        if ext in (".h5", ".hdf5"):
            if "auto_fisher" in rel:
                continue
            c = h5content(v)
            if "fisher_matrix" in c:
                idx = [x.decode() if isinstance(x, bytes) else x for x in c["indices"]]
                m = np.array(c["fisher_matrix"])
                o = np.argsort(idx)
                out[rel] = {"indices": sorted(idx), "matrix": m[np.ix_(o, o)],
                            "cosmo": sorted(map(str, c["cosmological_pars"]))}
            else:
                out[rel] = c
        elif ext == ".csv":
            import pandas as pd
            d = pd.read_csv(io.BytesIO(v), index_col=0).sort_index()
            out[rel] = {c: d[c].to_numpy() for c in d} | {"rows": [str(x) for x in d.index]}
        elif ext == ".pickle":
            d = pickle.loads(v)
            out[rel] = {f"{par}:{pair}": np.array(dcl.dc_lij) for par, coll in d.items()
                        for pair, dcl in coll.dcl_dict.items()}
    return out


def same(a, b):
    if isinstance(a, (list, np.ndarray)) or isinstance(b, (list, np.ndarray)):
        try:
            x, y = np.asarray(a, float), np.asarray(b, float)
        except (TypeError, ValueError):
            return repr(a) == repr(b)
        return x.shape == y.shape and np.allclose(x, y, rtol=1e-6, atol=1e-9 * (np.nanmax(np.abs(y)) if y.size else 0),
                                                  equal_nan=True)
    if isinstance(a, float) and isinstance(b, float):
        return bool(np.isclose(a, b, rtol=1e-7, equal_nan=True))
    return a == b


def differences(got, want):
    d = []
    for rel in sorted(set(got) | set(want)):
        if rel not in got or rel not in want:
            d.append(f"{rel} {'missing' if rel not in got else 'extra'}")
            continue
        for k in sorted(set(got[rel]) | set(want[rel])):
            if k not in got[rel] or k not in want[rel]:
                d.append(f"{rel}: {k} {'missing' if k not in got[rel] else 'extra'}")
            elif not same(got[rel][k], want[rel][k]):
                d.append(f"{rel}: {k} is {str(got[rel][k])[:80]} instead of {str(want[rel][k])[:80]}")
    return d


# ---------------------------------------------------------------- the program
class Program:
    def __init__(self, root, tier):
        from seyfert.utils import filesystem_utils as fsu
        self.root = root
        self.w = World(root, nz=17, free=("Omm",), free_bias=(), free_nuis=("aIA",), disps=(0.01,),
                       nbins={"WL": 1, "GCph": 1, "GCsp": 1},
                       ells={p: [(10, 2), (20, 4)] for p in ("WL", "GCph", "GCsp")}).write()
        self.w.write_pmm(root / "PMM")
        lists = root / "fishers"
        lists.mkdir()
        (lists / "selected_datavectors.txt").write_text(
            "[WL]: ['wlwl']\n[WL+GCph+XC(WL,GCph)]: ['wlwl', 'phph', 'wlph']\n")
        (lists / "a_posteriori_fisher_combs.txt").write_text("[WL] + [GCsp(Pk)]\n")
        if hasattr(fsu, "fisher_aux_files_dir"):
            fsu.fisher_aux_files_dir = lambda: lists
        self.log = root / "log.txt"
        self.log.write_text("log\n")
        self.run_dir = root / "run"
        self.run_dir.mkdir()

    def __call__(self):
        from seyfert.main import seyfert_core
        w = self.w
        seyfert_core.do_forecast(dict(
            workdir=self.run_dir, powerspectrum_dir=self.root / "PMM", forecast_config=w.cfg / "forecast.json",
            angular_config=w.cfg / "angular.json", powerspectrum_config=w.cfg / "pmm.json",
            derivative_config=w.cfg / "derivative.json", fisher_config=w.cfg / "fisher.json", input_data_dir=w.data),
            self.log)


class Explorer:
    def __init__(self, prog, tier):
        self.prog, self.tier = prog, tier
        self.fractions = [(0, 1), (1, 2)] if tier == "quick" else [(i, 8) for i in range(8)]

    def observe(self, start, history, stop_at=None, known=None):
        """run from a state; returns (finished, exception, [(key, state, history)] of the states a kill leaves, recorder,
        last state). States whose key is in `known` are left out and new ones are added to it."""
        rd = self.prog.run_dir
        crash.restore(rd, start)
        cache, seen, last = {}, [], [None]

        def see(snap, what):
            key = state_key(snap) if known is not None else None
            if key not in known:
                known.add(key)
                seen.append((key, snap, history + [what]))

        def visit(i, kind, rel):
            if history and rel.startswith("final_results" + os.sep):
                return      # second stops are told apart by everything else (see reduced)
            s = crash.snapshot(rd, cache)
            if s == last[0]:
                return
            for r, v in s.items() if last[0] is not None else ():
                if isinstance(v, bytes) and v is not last[0].get(r) and v != last[0].get(r) and r not in rec.renamed:
                    final = r.startswith("final_results" + os.sep) and self.tier == "quick"
                    for a, b in [(1, 2)] if final else self.fractions + [(-1, 1)]:
                        n = len(v) - 1 if a < 0 else len(v) * a // b
                        if 0 <= n < len(v):
                            see({**s, r: v[:n]}, f"killed with {n} of {len(v)} bytes of {r}")
            see(s, f"killed at event {i}: {kind} {rel}")
            rec.renamed.clear()
            last[0] = s
        rec = crash.Recorder(rd, visit=visit if known is not None else None, stop_at=stop_at)
        exc, fin = None, False
        try:
            fin, _ = rec.run(self.prog)
        except Exception as e:
            exc = e
        return fin, exc, seen, rec, crash.snapshot(rd)


def reduced(snap):
    """second stops are told apart by everything except the final results, which the program only writes"""
    return {r: v for r, v in snap.items() if not r.startswith("final_results" + os.sep)}


def distinct_stops(kinds):
    """events, except repetitions of the same kind inside one file, and all but the first inside one final result"""
    out = []
    for i, k in enumerate(kinds):
        if k[1].startswith("final_results" + os.sep):
            if i and kinds[i - 1][1] == k[1] and k[0] != "h5close":
                continue
        elif 0 < i < len(kinds) - 1 and kinds[i - 1] == k == kinds[i + 1]:
            continue
        out.append(i)
    return out


def run_case(case, ctx):
    from vlib.core import in_repo
    tier, shard, of = case["tier"], case["shard"], case["of"]
    with ctx.scratch() as root:
        prog = Program(root, tier)
        ex = Explorer(prog, tier)
        keys = set()
        fin, exc, seen, rec, final = ex.observe({}, [], known=keys)
        if exc is not None:
            raise exc
        want = values(final)
        ctx.check(len(want) > 20, "golden", f"the forecast left only {sorted(want)}")
        todo = [x for i, x in enumerate(seen) if i % of == shard]
        stops = range(rec.n) if tier == "thorough" else distinct_stops(rec.kinds)
        for i in list(stops)[shard::of]:
            f, e, _, _, s = ex.observe({}, [], stop_at=i)
            if e is not None:
                ctx.fail("interrupt", f"interrupted at {rec.kinds[i]}: {type(e).__name__}: {e}")
            elif not f and state_key(s) not in keys:
                keys.add(state_key(s))
                todo.append((state_key(s), s, [f"interrupted at event {i}: {rec.kinds[i][0]} {rec.kinds[i][1]}"]))
        if shard == 0:
            todo.append((state_key(final), final, ["finished"]))
        level1 = len(todo)
        small = {state_key(reduced(s)) for _, s, _ in seen} | {state_key(reduced(s)) for _, s, _ in todo}
        n = 0
        while n < len(todo):
            key, s, hist = todo[n]
            todo[n] = None
            n += 1
            ctx.state(key)
            ctx.trace()
            f, e, more, r2, end = ex.observe(s, hist, known=keys if n <= level1 or tier == "thorough" else None)
            ctx.step(r2.n)
            what = " then ".join(hist)
            if e is not None:
                where = "the repository" if in_repo(e.__traceback__) else "a library"
                ctx.fail("resume", f"{what}: the run started again failed in {where}: {type(e).__name__}: {e}")
                continue
            d = differences(values(end), want)
            ctx.check(not d, "results", lambda: f"{what}: started again it ends differently: {d[:4]}")
            for rel, v in s.items():
                if any(p in os.sep + rel for p in PRODUCTS) and rel in final and v == final[rel] \
                        and not rel.startswith("final_results") and "IST" not in rel and isinstance(v, bytes):
                    p = prog.run_dir / rel
                    ctx.check(os.stat(p).st_mtime_ns == crash.T0 and end[rel] == v, "recomputed",
                              lambda: f"{what}: the complete {rel} was computed again")
            if len(ctx.failures) > 12:
                return
            for k, s2, h2 in more:
                sk = state_key(reduced(s2))
                if sk not in small:
                    small.add(sk)
                    todo.append((k, s2, h2))
            if tier == "thorough" and n <= level1:
                for i in distinct_stops(r2.kinds)[n % 10::10]:
                    f, e, _, _, s2 = ex.observe(s, hist, stop_at=i)
                    sk = state_key(reduced(s2))
                    if not f and e is None and sk not in small:
                        small.add(sk)
                        todo.append((state_key(s2), s2, hist + [f"interrupted at event {i}: {r2.kinds[i]}"]))
        ctx.note({"events of the run": rec.n, "states after one stop": level1, "after more": len(todo) - level1})

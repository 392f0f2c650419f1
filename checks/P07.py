"""Results on disk: Fisher matrix and table files are faithful and never clobbered without being asked."""
import itertools
import numpy as np
import pandas as pd
from checks.P06 import build, compare, MATS, Ref

PROPERTY = "P07"
LEVEL = "model_checking"
RULE = ("every history of write requests (matrix x overwrite x skip), deletions and foreign files on one path up to the "
        "depth, the file read back after every step; every history of table writes per format; every data-vector name's "
        "file name; a state is the content of the path")
BOUNDS = {"quick": "Fisher file histories of depth 4, csv depth 4, xlsx depth 3, two-file directory histories depth 3",
          "thorough": "Fisher file histories of depth 5, csv depth 5, xlsx depth 4, directories depth 4"}


def cases(tier):
    d = 4 if tier == "quick" else 5
    for a, b in itertools.product(range(len(OPS)), repeat=2):
        yield {"kind": "fisher", "pre": [a, b], "depth": d}
    for fmt in (".csv", ".xlsx"):
        for a in range(len(TOPS)):
            yield {"kind": "table", "fmt": fmt, "first": a, "depth": d if fmt == ".csv" else d - 1}
    for a in range(len(DOPS)):
        yield {"kind": "dir", "first": a, "depth": 3 if tier == "quick" else 4}
    yield {"kind": "names"}
    yield {"kind": "content"}


OPS = [("write", m, o, s) for m in ("A", "C") for o in (False, True) for s in (False, True)] + [("delete",), ("empty",)]
TOPS = [("write", i, o) for i in (0, 1) for o in (False, True)] + [("delete",), ("default", 1), ("empty",)]
DOPS = [("save", ow, names) for ow in (False, True) for names in (("A",), ("A", "C"))] + [("rm", "A"), ("rm", "C"),
                                                                                            ("change",)]
CHUNK = 2


def load(f):
    from seyfert.fisher.fisher_matrix import FisherMatrix
    return FisherMatrix.fromHDF5(f)


def run_case(case, ctx):
    globals()["do_" + case["kind"]](case, ctx)


def do_fisher(case, ctx):
    from seyfert.fisher.fisher_matrix import FisherMatrixError
    objs = {k: build(k) for k in ("A", "C")}
    with ctx.scratch() as d:
        f = d / "fisher.hdf5"
        for n, tail in enumerate(itertools.product(range(len(OPS)), repeat=case["depth"] - 2)):
            if f.exists():
                f.unlink()
            state, hist = None, []
            seq = [OPS[i] for i in case["pre"]] + [OPS[i] for i in tail]
            for i, op in enumerate(seq):
                hist.append(op)
                if op[0] == "delete":
                    if f.exists():
                        f.unlink()
                    state = None
                elif op[0] == "empty":  # somebody else's file, of no length
                    f.write_bytes(b"")
                    state = "foreign"
                else:
                    _, m, ow, skip = op
                    before = f.read_bytes() if f.exists() else None
                    obj = objs[m][0]
                    path = f if i % 2 else str(f)
                    if state is None or (ow and not skip):
                        obj.writeToFile(outfile=path, overwrite=ow, skip_if_exists=skip)
                        state = m
                    elif skip:
                        obj.writeToFile(outfile=path, overwrite=ow, skip_if_exists=skip)
                        ctx.check(f.read_bytes() == before, "skip-rewrote", f"{hist}")
                    else:
                        ctx.raises(FileExistsError,
                                   lambda: obj.writeToFile(outfile=path, overwrite=ow, skip_if_exists=skip),
                                   "clobber-accepted", f"{hist}")
                        ctx.check(f.exists() and f.read_bytes() == before, "clobbered", f"{hist}")
                ctx.step()
                ctx.eq(f.exists(), state is not None, "existence", f"{hist}")
                if state in objs and i >= len(seq) - 2:
                    compare(ctx, load(f), objs[state][1], ["read back"] + hist)
                    G = load(f)
                    ctx.check(list(G.index) == objs[state][1].names and
                              np.array_equal(G.matrix.to_numpy(), objs[state][1].m), "read-back-exact",
                              lambda: f"{hist}: {G.matrix.to_numpy().tolist()} expected {objs[state][1].m.tolist()}")
                ctx.state((state, i))
            ctx.trace()
            if len(ctx.failures) > 5:
                return
        ctx.raises(FisherMatrixError, lambda: objs["A"][0].writeToFile(), "no-destination")
        ctx.eq(sorted(p.name for p in d.iterdir() if p.name != "fisher.hdf5"), [], "stray-files", f"{hist}")
    ctx.note({"history": [str(h) for h in hist], "final": state})


def frames():
    a = pd.DataFrame([[1.5, 2.0 / 3.0], [-1e-12, 3e20]], index=["w0", "wa"], columns=["x", "y"])
    b = pd.DataFrame([[0.1, 7.0]], index=["h"], columns=["x", "z"])
    return [a, b]


def read_table(f):
    if f.suffix == ".csv":
        return pd.read_csv(f, index_col=0)
    return pd.read_excel(f, index_col=0)


def do_table(case, ctx):
    from seyfert.utils import table_utils as tu
    fs = frames()
    with ctx.scratch() as d:
        f = d / f"table{case['fmt']}"
        for tail in itertools.product(range(len(TOPS)), repeat=case["depth"] - 1):
            seq = [TOPS[case["first"]]] + [TOPS[i] for i in tail]
            if f.exists():
                f.unlink()
            state, hist = None, []
            for i, op in enumerate(seq):
                hist.append(op)
                before = f.read_bytes() if f.exists() else None
                if op[0] == "delete":
                    if f.exists():
                        f.unlink()
                    state = None
                elif op[0] == "empty":
                    f.write_bytes(b"")
                    state = "foreign"
                else:
                    ow = op[2] if op[0] == "write" else None
                    if ow is None:
                        tu.write_dataframe_table(fs[op[1]], f if i % 2 else str(f))
                    else:
                        tu.write_dataframe_table(fs[op[1]], outfile=f, overwrite=ow)
                    if state is None or ow:
                        state = op[1]
                    else:
                        ctx.check(f.read_bytes() == before, "table-clobbered", f"{hist}")
                ctx.step()
                ctx.state((case["fmt"], state, i))
                ctx.eq(f.exists(), state is not None, "table-existence", f"{hist}")
            if state is not None and state != "foreign":
                got = read_table(f)
                w = fs[state]
                ctx.check(list(got.index) == list(w.index) and list(got.columns) == list(w.columns) and
                          np.allclose(got.to_numpy(float), w.to_numpy(), rtol=1e-14, atol=0), "table-content",
                          lambda: f"{hist}: {got.to_dict()} expected {w.to_dict()}")
            ctx.trace()
        for bad in ("t.txt", "t", "t.pdf"):
            ctx.raises(Exception, lambda: tu.write_dataframe_table(fs[0], d / bad), "bad-format", bad)
            ctx.check(not (d / bad).exists(), "bad-format-file", bad)


def do_dir(case, ctx):
    """an analysis saving its matrices into a directory, repeatedly"""
    from seyfert.fisher.fisher_analysis import FisherAnalysis
    for tail in itertools.product(range(len(DOPS)), repeat=case["depth"] - 1):
        seq = [DOPS[case["first"]]] + [DOPS[i] for i in tail]
        with ctx.scratch() as d:
            cur = {k: build(k) for k in ("A", "C")}
            disk = {}
            hist = []
            for op in seq:
                hist.append(op)
                if op[0] == "rm":
                    p = d / f"fisher_{op[1]}.hdf5"
                    if p.exists():
                        p.unlink()
                    disk.pop(op[1], None)
                elif op[0] == "change":
                    o, r = cur["A"]
                    cur["A"] = (o + build("B")[0], r.combine(build("B")[1], 1))
                    cur["A"][0].name = "A"
                    cur["A"][1].name = "A"
                else:
                    _, ow, names = op
                    an = FisherAnalysis(fisher_matrices={k: cur[k][0] for k in names})
                    blocked = [k for k in names if k in disk] if not ow else []
                    if blocked:
                        snap = {p.name: p.read_bytes() for p in d.iterdir()}
                        ctx.raises(FileExistsError, lambda: an.saveFishersToDisk(d, overwrite=ow), "dir-clobber", f"{hist}")
                        for n, b in snap.items():
                            ctx.check((d / n).exists() and (d / n).read_bytes() == b, "dir-clobbered", f"{hist} {n}")
                        # matrices saved before the refused one may be there
                        for k in names:
                            if k not in disk and (d / f"fisher_{k}.hdf5").exists():
                                disk[k] = cur[k][1]
                    else:
                        an.saveFishersToDisk(d, overwrite=ow)
                        for k in names:
                            disk[k] = cur[k][1]
                ctx.step()
                ctx.state(tuple(sorted((k, len(v.names)) for k, v in disk.items())))
            an = FisherAnalysis()
            an.loadBaseFishersFromDir(d)
            ctx.eq(set(an.base_fishers), set(disk), "dir-content", f"{hist}")
            for k in disk:
                if k in an.base_fishers:
                    compare(ctx, an.base_fishers[k], disk[k], ["dir"] + hist)
            ctx.trace()


def do_names(case, ctx):
    """distinct data vectors never share a result file, and the file gives the name back"""
    from seyfert.fisher.datavector import ClDataVector
    from seyfert.fisher.fisher_matrix import FisherMatrix
    al = ["GCph", "GCsp", "WL", "V"]
    pairs = [(a, b) for i, a in enumerate(al) for b in al[i:]]
    names = []
    for k in (1, 2, 3):
        for v in itertools.permutations(pairs, k):
            names.append(ClDataVector(list(v)).name)
    names += [f"{a} {s} {b}" for a in names[:60] for b in names[:60] for s in "+-"]
    seen = {}
    ref = MATS["C"]
    with ctx.scratch() as d:
        for i, n in enumerate(names):
            F = FisherMatrix(matrix_df=build("C")[1].frame() if i % 97 == 0 else None, name=n,
                             cosmological_parameters=ref[1], nuisance_parameters=set())
            f = F.getFilename()
            ctx.check(seen.setdefault(f, n) == n, "filename-collision", lambda: f"{n!r} and {seen[f]!r} both use {f}")
            ctx.check("/" not in f and " " not in f and f.startswith("fisher") and f.endswith(".hdf5"), "filename", f)
            ctx.step()
            if i % 97 == 0:
                F.writeToFile(outdir=d)
                ctx.check((d / f).is_file(), "filename-used", f)
                ctx.eq(load(d / f).name, n, "name-roundtrip")
                ctx.trace()
        ctx.state(len(seen))


def do_content(case, ctx):
    """every label arrangement and nuisance/cosmology split, and special values"""
    from seyfert.fisher.fisher_matrix import FisherMatrix
    base = ["w0", "b1", "Omm", "bgph10"]
    with ctx.scratch() as d:
        for perm in itertools.permutations(base):
            for mask in range(1, 16):
                cosmo = {p for i, p in enumerate(base) if mask >> i & 1}
                nuis = set(base) - cosmo
                m = np.array([[(i * 4 + j) / 7.0 for j in range(4)] for i in range(4)])
                m[0, 1], m[1, 2], m[2, 3], m[3, 3] = 0.0, -1e-300, 1e300, 1 / 3
                if mask % 2:  # without extreme values, nothing may be lost either
                    m = np.array([[(i * 4 + j + 1) / 7.0 * 3.0 ** (3 * i - j) for j in range(4)] for i in range(4)])
                r = Ref(perm, cosmo, nuis, m, "[WL+XC(WL,GCph)]")
                F = FisherMatrix(matrix_df=r.frame(), name=r.name, cosmological_parameters=cosmo, nuisance_parameters=nuis)
                f = d / "x.hdf5"
                F.writeToFile(outfile=f, overwrite=True)
                G = load(f)
                ctx.check(list(G.index) == list(perm) and np.array_equal(G.matrix.to_numpy(), m), "content",
                          lambda: f"{perm} {mask}: {G.matrix}")
                ctx.eq((set(G.cosmological_parameters), set(G.nuisance_parameters), G.name), (cosmo, nuis, r.name),
                       "content-sets", f"{perm} {mask}")
                ctx.check(G == F, "content-equality", f"{perm} {mask}")
                H = FisherMatrix(name="old", cosmological_parameters={"zz"}, nuisance_parameters={"yy"})
                H.loadFromFile(f)
                ctx.check(H == F, "reload-equality", f"{perm} {mask}")
                ctx.step()
                ctx.trace()
                ctx.state((perm, mask))
                if mask == 7:
                    c = d / "name.csv"
                    F.matrix.to_csv(c)
                    K = FisherMatrix.fromCSV(c, cosmological_parameters=cosmo, nuisance_parameters=nuis)
                    ctx.check(list(K.index) == list(perm) and np.allclose(K.matrix.to_numpy(), m, rtol=1e-13, atol=0) and
                              K.name == "name", "csv-content", f"{perm}")

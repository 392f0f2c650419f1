"""Fisher matrix algebra: every history of sums, differences, fixing, marginalising, priors, inversions."""
import copy
import itertools
import numpy as np
import pandas as pd

PROPERTY = "P06"
LEVEL = "model_checking"
RULE = ("every sequence of operations up to the depth from each of two starting matrices, observed after every step and "
        "(separately) only at the end, against a dictionary-of-entries reference; a state is the reference matrix with "
        "its parameter sets")
BOUNDS = {"quick": "18 operations, depth 3, 2 starts, 2 observation modes",
          "thorough": "18 operations, depth 4"}


def spd(names, seed, scale):
    """a fixed well-conditioned symmetric positive definite matrix, no two entries alike"""
    n = len(names)
    base = np.array([[((i * 7 + j * 3 + seed * 5) % 11) / 11.0 for j in range(n)] for i in range(n)])
    m = base @ base.T + np.diag([1.5 + 0.7 * ((i * 3 + seed) % 5) for i in range(n)])
    return m * scale


MATS = {
    "A": (["w0", "b2", "Omm", "wa", "b1"], {"w0", "wa", "Omm"}, {"b1", "b2"}, 1, 10.0),
    "B": (["c1", "Omm", "w0", "b2"], {"w0", "Omm"}, {"b2", "c1"}, 2, 3.0),
    "C": (["wa", "h", "w0"], {"w0", "wa", "h"}, set(), 3, 0.05),
    "D": (["h", "w0", "wa", "ns"], {"w0", "wa", "h", "ns"}, set(), 4, 2.0),
}
OPS = [("add", "B"), ("radd", "C"), ("sub", "C"), ("fix", ("w0",)), ("fix", ("b2", "Omm")), ("fixnuis",), ("margc", ("wa",)),
       ("margi", ("Omm",)), ("margi", ("b2",)), ("margc", ("b1", "w0")), ("margnuisc",), ("margnuisi",), ("prior", "w0"),
       ("select",), ("inv",), ("corr",), ("errs",), ("copy",), ("load",)]
FID = {"w0": -0.9, "wa": 0.5, "Omm": 0.32, "h": 0.67, "b1": 1.1, "b2": 1.2, "c1": 2.0, "ns": 0.96}


class Ref:
    def __init__(self, names, cosmo, nuis, m, name):
        self.names, self.cosmo, self.nuis, self.m, self.name = list(names), set(cosmo), set(nuis), np.array(m, float), name

    def padded(self, names):
        out = np.zeros((len(names), len(names)))
        ix = [names.index(x) for x in self.names]
        out[np.ix_(ix, ix)] = self.m
        return out

    def combine(self, o, sign):
        names = sorted(set(self.names) | set(o.names))
        return Ref(names, self.cosmo | o.cosmo, self.nuis | o.nuis, self.padded(names) + sign * o.padded(names),
                   f"{self.name} {'+' if sign > 0 else '-'} {o.name}")

    def drop(self, pars):
        keep = [n for n in self.names if n not in pars]
        ix = [self.names.index(n) for n in keep]
        return Ref(keep, self.cosmo - set(pars), self.nuis - set(pars), self.m[np.ix_(ix, ix)], self.name)

    def marg(self, pars):
        """Schur complement: independent of any matrix inverse of the whole"""
        keep = [n for n in self.names if n not in pars]
        out = [n for n in self.names if n in pars]
        k = [self.names.index(n) for n in keep]
        o = [self.names.index(n) for n in out]
        m = self.m[np.ix_(k, k)]
        if o:
            m = m - self.m[np.ix_(k, o)] @ np.linalg.solve(self.m[np.ix_(o, o)], self.m[np.ix_(o, k)])
        return Ref(keep, self.cosmo - set(pars), self.nuis - set(pars), m, self.name)

    def prior(self, p, frac):
        m = self.m.copy()
        i = self.names.index(p)
        m[i, i] += 1.0 / (frac * FID[p]) ** 2
        return Ref(self.names, self.cosmo, self.nuis, m, self.name)

    def frame(self):
        return pd.DataFrame(self.m, index=self.names, columns=self.names)


def build(which, rows=None):
    from seyfert.fisher.fisher_matrix import FisherMatrix
    names, cosmo, nuis, seed, scale = MATS[which]
    m = spd(names, seed, scale)
    df = pd.DataFrame(m, index=names, columns=names)
    return (FisherMatrix(matrix_df=df, name=which, cosmological_parameters=cosmo, nuisance_parameters=nuis),
            Ref(names, cosmo, nuis, m, which))


def cases(tier):
    depth = 3 if tier == "quick" else 4
    for start in ("A", "B"):
        for a, b in itertools.product(range(len(OPS)), repeat=2):
            yield {"kind": "hist", "start": start, "pre": [a, b], "depth": depth}
    yield {"kind": "assoc"}
    yield {"kind": "flags"}


CHUNK = 8


def run_case(case, ctx):
    if case["kind"] == "assoc":
        return assoc(ctx)
    if case["kind"] == "flags":
        return flags(ctx)
    for tail in itertools.product(range(len(OPS)), repeat=case["depth"] - 2):
        seq = [OPS[i] for i in case["pre"]] + [OPS[i] for i in tail]
        for eager in (True, False):
            if eager and ("errs",) in seq:
                continue
            history(ctx, case["start"], seq, eager)
            if len(ctx.failures) > 6:
                return


def enabled(ref, op):
    if op[0] in ("fix", "margc", "margi"):
        return set(op[1]) <= set(ref.names) and len(ref.names) > len(op[1])
    if op[0] in ("fixnuis", "margnuisc", "margnuisi"):
        return bool(ref.nuis) and bool(ref.cosmo)
    if op[0] == "prior":
        return op[1] in ref.names
    if op[0] == "corr":
        return bool(ref.cosmo)
    return True


def history(ctx, start, seq, eager):
    X, ref = build(start)
    others = {k: build(k) for k in ("B", "C")}
    hist = [start]
    for op in seq:
        if not enabled(ref, op):
            if op[0] == "prior":
                ctx.raises(Exception, lambda: X.addPriorToParameters({op[1]: FID[op[1]]}, 0.1), "missing-accepted",
                           f"{hist} then {op}")
                compare(ctx, X, ref, hist + ["refused", op])
            if op[0] in ("fix", "margc", "margi") and not set(op[1]) <= set(ref.names):
                pars = set(op[1])
                fn = (lambda: X.fixParameters(pars)) if op[0] == "fix" else \
                     (lambda: X.marginalizeParameters(pars, ret_copy=op[0] == "margc"))
                ctx.raises(Exception, fn, "missing-accepted", f"{hist} then {op}")
                compare(ctx, X, ref, hist + ["refused", op])
            return
        before, ref_before = X, ref
        out = apply(ctx, X, ref, op, others, hist)
        if out is None:
            return
        X, ref = out
        hist.append(op)
        if np.linalg.cond(ref.m) > 1e7:  # nothing is promised about numerically singular matrices
            ctx.count("pruned_singular")
            return
        if np.linalg.eigvalsh(ref.m)[0] <= 0:  # a difference need not be a covariance: entries are still checked
            ctx.count("not_positive")
            compare(ctx, X, ref, hist)
            return
        ctx.step()
        if len(hist) > len(seq):
            if X is not before:
                compare(ctx, before, ref_before, hist + ["operand"])
            if op[0] in ("add", "radd", "sub"):
                compare(ctx, *others[op[1]], hist + [f"operand {op[1]}"])
        ctx.state((tuple(ref.names), tuple(sorted(ref.cosmo)), np.round(ref.m, 6).tobytes()))
        if eager:  # asking for errors is itself a step: it may leave a cached inverse behind
            one_error(ctx, X, ref, hist)
    compare(ctx, X, ref, hist)
    if X.inverse is not None:
        check_inverse(ctx, X, ref, hist)
    errors(ctx, X, ref, hist)
    ctx.trace()
    ctx.note({"history": [str(h) for h in hist], "params": ref.names})


def apply(ctx, X, ref, op, others, hist):
    k = op[0]
    if k == "add":
        return X + others[op[1]][0], ref.combine(others[op[1]][1], 1)
    if k == "radd":
        return others[op[1]][0] + X, others[op[1]][1].combine(ref, 1)
    if k == "sub":
        return X - others[op[1]][0], ref.combine(others[op[1]][1], -1)
    if k == "fix":
        X.fixParameters(list(op[1]) if len(hist) % 2 else set(op[1]))
        return X, ref.drop(op[1])
    if k == "fixnuis":
        n = set(ref.nuis)
        X.fixParameters(X.nuisance_parameters)
        return X, ref.drop(n)
    if k == "margc":
        return X.marginalizeParameters(list(op[1])), ref.marg(op[1])
    if k == "margi":
        r = X.marginalizeParameters(set(op[1]), ret_copy=False)
        ctx.check(r is None, "inplace-returns", f"{hist} {op}")
        return X, ref.marg(op[1])
    if k == "margnuisc":
        return X.marginalizeNuisance(), ref.marg(ref.nuis)
    if k == "margnuisi":
        X.marginalizeNuisance(ret_copy=False)
        return X, ref.marg(ref.nuis)
    if k == "prior":
        X.addPriorToParameters({op[1]: FID[op[1]]}, 0.1)
        return X, ref.prior(op[1], 0.1)
    if k == "select":
        X.selectRelevantFisherSubMatrix()
        return X, ref
    if k == "inv":
        X.evaluateInverse()
        check_inverse(ctx, X, ref, hist + [op])
        return X, ref
    if k == "corr":
        if X.inverse is None:
            X.evaluateInverse()
        X.evaluateCorrelationMatrix()
        inv = np.linalg.inv(ref.m)
        s = np.sqrt(np.diag(inv))
        c = pd.DataFrame(inv / np.outer(s, s), index=ref.names, columns=ref.names)
        got = X.correlation
        want = c.loc[sorted(ref.cosmo), sorted(ref.cosmo)]
        ok = set(got.index) == ref.cosmo and set(got.columns) == ref.cosmo
        ctx.check(ok and np.allclose(got.loc[want.index, want.columns].to_numpy(float), want.to_numpy(), rtol=1e-6,
                                     atol=1e-8, equal_nan=True),
                  "correlation", lambda: f"{hist}: correlation {got.to_dict()} expected {want.to_dict()}")
        return X, ref
    if k == "errs":
        errors(ctx, X, ref, hist + [op])
        return X, ref
    if k == "copy":
        return (X.copy() if len(hist) % 2 else copy.deepcopy(X)), ref
    if k == "load":  # another matrix is read into the same object
        X.loadFromFile(stored(ctx, "D"))
        return X, others_ref("D")
    raise AssertionError(k)


STORED = {}


def stored(ctx, which):
    """a file holding one of the matrices, written once per process in the format of the program, without the program"""
    if which not in STORED:
        import atexit
        import shutil
        import tempfile
        import h5py
        names, cosmo, nuis, seed, scale = MATS[which]
        d = tempfile.mkdtemp(prefix="verif_P06_")
        atexit.register(shutil.rmtree, d, True)
        STORED[which] = f"{d}/{which}.hdf5"
        s = h5py.special_dtype(vlen=str)
        with h5py.File(STORED[which], "w") as hf:
            hf.create_dataset("name", data=which, dtype=s)
            hf.create_dataset("indices", data=np.array(names, dtype=s), dtype=s)
            hf.create_dataset("fisher_matrix", data=spd(names, seed, scale))
            hf.create_dataset("cosmological_pars", data=np.array(sorted(cosmo), dtype=s), dtype=s)
            if nuis:
                hf.create_dataset("nuisance_pars", data=np.array(sorted(nuis), dtype=s), dtype=s)
    return STORED[which]


def others_ref(which):
    names, cosmo, nuis, seed, scale = MATS[which]
    return Ref(names, cosmo, nuis, spd(names, seed, scale), which)


def compare(ctx, X, ref, hist):
    ctx.eq(set(X.cosmological_parameters), ref.cosmo, "cosmo-set", f"{hist}")
    ctx.eq(set(X.nuisance_parameters), ref.nuis, "nuis-set", f"{hist}")
    ctx.eq(X.name, ref.name, "name", f"{hist}")
    ok = sorted(X.index) == sorted(ref.names) and list(X.index) == list(X.columns)
    if not ctx.check(ok, "labels", lambda: f"{hist}: rows {list(X.index)} cols {list(X.columns)} expected {ref.names}"):
        return
    got = X.matrix.loc[ref.names, ref.names].to_numpy(float)
    ctx.check(np.allclose(got, ref.m, rtol=1e-8, atol=1e-9), "entries",
              lambda: f"{hist}: {got.tolist()} expected {ref.m.tolist()} over {ref.names}")


def check_inverse(ctx, X, ref, hist):
    inv = np.linalg.inv(ref.m)
    df = X.inverse
    ok = set(df.index) == set(ref.names) and set(df.columns) == set(ref.names)
    if ctx.check(ok, "inverse-labels", lambda: f"{hist}: inverse over {list(df.index)} expected {ref.names}"):
        ctx.check(np.allclose(df.loc[ref.names, ref.names].to_numpy(float), inv, rtol=1e-6, atol=1e-9), "inverse",
                  lambda: f"{hist}: stale or wrong inverse")


def one_error(ctx, X, ref, hist):
    inv = np.linalg.inv(ref.m)
    got = X.getMarginalizedErrors(fom=False, only_cosmo=False)
    same(ctx, got.to_dict(), {n: np.sqrt(inv[i, i]) for i, n in enumerate(ref.names)}, "marginalised-errors", f"{hist}")


def errors(ctx, X, ref, hist):
    inv = np.linalg.inv(ref.m)
    sig = {n: np.sqrt(inv[i, i]) for i, n in enumerate(ref.names)}
    unm = {n: 1 / np.sqrt(ref.m[i, i]) for i, n in enumerate(ref.names)}
    fom = None
    if {"w0", "wa"} <= set(ref.names):
        ix = [ref.names.index("w0"), ref.names.index("wa")]
        fom = 1 / np.sqrt(np.linalg.det(inv[np.ix_(ix, ix)]))
    for f, oc in itertools.product((True, False), repeat=2):
        got = X.getMarginalizedErrors(fom=f, only_cosmo=oc)
        want = {n: v for n, v in sig.items() if not oc or n in ref.cosmo}
        if f and fom is not None:
            want["FoM"] = fom
        same(ctx, got.to_dict(), want, "marginalised-errors", f"{hist} fom={f} only_cosmo={oc}")
        got = X.getUnmarginalizedErrors(only_cosmo=oc)
        same(ctx, got.to_dict(), {n: v for n, v in unm.items() if not oc or n in ref.cosmo}, "unmarginalised-errors",
             f"{hist} only_cosmo={oc}")
    for n in ref.names:
        g = X.getParameterSigma(n)
        if not near(g, sig[n]):
            ctx.fail("sigma", f"{hist}: sigma of {n} is {X.getParameterSigma(n)}, expected {sig[n]}")
    if fom is not None:
        ctx.check(np.isclose(X.getFigureOfMerit(), fom, rtol=1e-6, equal_nan=True), "fom",
                  lambda: f"{hist}: FoM {X.getFigureOfMerit()} expected {fom}")


def near(a, b):
    return a == b or abs(a - b) <= 1e-6 * abs(b) or (np.isnan(a) and np.isnan(b))


def same(ctx, got, want, key, msg):
    ok = set(got) == set(want) and all(near(got[k], want[k]) for k in want)
    ctx.check(ok, key, lambda: f"{msg}: {got} expected {want}")


def assoc(ctx):
    """sums in every order and grouping, sum with itself minus itself, marginalise in every order"""
    for perm in itertools.permutations("ABCD", 3):
        objs = [build(k) for k in perm]
        r = objs[0][1].combine(objs[1][1], 1).combine(objs[2][1], 1)
        left = (objs[0][0] + objs[1][0]) + objs[2][0]
        right = objs[0][0] + (objs[1][0] + objs[2][0])
        r2 = Ref(r.names, r.cosmo, r.nuis, r.m, right.name)
        compare(ctx, left, r, ["left", perm])
        compare(ctx, right, r2, ["right", perm])
        back = left - objs[2][0]
        rb = r.combine(objs[2][1], -1)
        compare(ctx, back, rb, ["back", perm])
        ctx.step(4)
        ctx.state(perm)
    # operands which share their name, or are the very same object; sums and differences repeated
    for a, b in itertools.product("ABCD", repeat=2):
        (X, x), (Y, y) = build(a), build(b)
        Y.name, y.name = X.name, x.name
        for sign in (1, -1):
            r = x.combine(y, sign)
            compare(ctx, X + Y if sign > 0 else X - Y, r, ["same name", a, b, sign])
            compare(ctx, X, x, ["same name", a, b, sign, "operand"])
            compare(ctx, Y, y, ["same name", a, b, sign, "operand"])
        compare(ctx, X - X, x.combine(x, -1), ["itself", a])
        compare(ctx, X + X, x.combine(x, 1), ["itself", a])
        compare(ctx, X, x, ["itself", a, "operand"])
        ctx.step(4)
        ctx.state((a, b))
    # priors on several parameters at once, at several fractions, values of both signs
    for pars in itertools.chain.from_iterable(itertools.permutations(MATS["A"][0], k) for k in (1, 2, 3)):
        for frac in (0.01, 0.5, 3.0):
            X, x = build("A")
            X.addPriorToParameters({p: FID[p] for p in pars}, frac)
            for p in pars:
                x = x.prior(p, frac)
            compare(ctx, X, x, ["prior", pars, frac])
            ctx.step()
    names = MATS["A"][0]
    for k in range(1, 4):
        for pars in itertools.permutations(names, k):
            X, ref = build("A")
            for p in pars:
                X = X.marginalizeParameters([p])
            compare(ctx, X, ref.marg(pars), ["marg seq", pars])
            Y, _ = build("A")
            Y.marginalizeParameters(pars, ret_copy=False)
            compare(ctx, Y, ref.marg(pars), ["marg at once", pars])
            Z, _ = build("A")
            for p in pars:
                Z.fixParameters([p])
            compare(ctx, Z, ref.drop(pars), ["fix seq", pars])
            ctx.step(2 * k + 1)
            ctx.state(pars)
            ctx.trace()
    # equality
    a, _ = build("A")
    b, _ = build("A")
    ctx.check(a == b, "equality", "two builds of the same matrix differ")
    order = sorted(MATS["A"][0])
    c, _ = build("A")
    c.matrix = c.matrix.loc[order, order]
    ctx.check(a == c, "equality", "row order decides equality")
    c.matrix.loc["w0", "wa"] += 1
    ctx.check(not (a == c), "equality", "different entries compare equal")


def flags(ctx):
    """dropping of nuisance parameters when they are not to be marginalised; consistency checks"""
    for flag in (True, False):
        X, ref = build("A")
        X.marginalize_nuisance = flag
        r2 = ref if flag else ref.drop(ref.nuis)
        c = X.copy()
        ctx.eq(c.marginalize_nuisance, flag, "flag-copied")
        m = X.marginalizeNuisance()
        compare(ctx, m, ref.marg(ref.nuis) if flag else ref, ["marginalizeNuisance", flag])
        X.selectRelevantFisherSubMatrix()
        compare(ctx, X, r2, ["select", flag])
        ctx.eq(list(X.index), sorted(r2.names), "select-order")
        X.selectRelevantFisherSubMatrix()
        compare(ctx, X, r2, ["select twice", flag])
        errors(ctx, X, r2, ["select twice", flag])
        ctx.step(3)
        ctx.state(("flag", flag))
    for extra in ("cosmo", "nuis"):
        X, ref = build("A")
        from seyfert.fisher.fisher_matrix import FisherMatrix, FisherMatrixError
        X = FisherMatrix(matrix_df=ref.frame(), name="A", cosmological_parameters=ref.cosmo | ({"zz"} if extra == "cosmo" else set()),
                         nuisance_parameters=ref.nuis | ({"zz"} if extra == "nuis" else set()))
        ctx.raises(FisherMatrixError, X.selectRelevantFisherSubMatrix, "select-missing", extra)
        ctx.raises(Exception, X.checkAttributes, "check-missing", extra)
    for sub in (["w0", "wa"], ["w0", "b1", "Omm"], ["b1", "b2", "wa", "w0"]):
        names, cosmo, nuis, *_ = MATS["A"]
        X, ref = build("A")
        X = type(X)(matrix_df=ref.frame(), name="A", cosmological_parameters=cosmo & set(sub),
                    nuisance_parameters=nuis & set(sub))
        X.selectRelevantFisherSubMatrix()
        compare(ctx, X, ref.drop([n for n in names if n not in sub]), ["subset", sub])
        X.checkAttributes()

"""Fisher matrix of a data vector: every vector, order, orientation, storage and multipole layout against a naive reference."""
import copy
import itertools
import numpy as np

PROPERTY = "P08"
LEVEL = "model_checking"
RULE = ("every data vector of distinct pairs up to the length bound in every order and orientation, with every storage "
        "orientation of the inputs, bin counts and multipole layouts; a state is (pairs of the vector, layout, bins); the "
        "matrix is compared entry by entry with a scalar-loop Gaussian covariance reference")
BOUNDS = {"quick": "vectors of up to 3 of 6 pairs, 6 multipole layouts, 3 bin layouts, each with one of the 2 storage "
                   "orientations and one of the 2 parameter sets per (layout, bins, parity)",
          "thorough": "vectors of up to 5 of 6 pairs"}

AL = ["WL", "GCph", "GCsp"]
LONG = {"GCph": "PhotometricGalaxy", "GCsp": "SpectroscopicGalaxy", "WL": "Lensing"}
SHORT = {"GCph": "ph", "GCsp": "sp", "WL": "wl"}
PAIRS = [("WL", "WL"), ("GCph", "GCph"), ("GCsp", "GCsp"), ("WL", "GCph"), ("WL", "GCsp"), ("GCph", "GCsp")]
ELL = np.array([10.5, 20.0, 35.25, 50.0, 80.5])
# multipoles of each auto pair; crosses get the intersection minus what is listed under "X"
LAYOUTS = [
    {"WL": [0, 1, 2], "GCph": [0, 1, 2], "GCsp": [0, 1, 2]},
    {"WL": [0, 1, 2, 3, 4], "GCph": [0, 1, 2, 3], "GCsp": [0, 1, 2]},
    {"WL": [1, 2, 3], "GCph": [0, 1, 2, 3], "GCsp": [0, 1, 2, 3, 4]},
    {"WL": [0, 1, 2, 4], "GCph": [1, 2, 3, 4], "GCsp": [0, 1, 2, 3]},
    {"WL": [0, 1, 2, 3], "GCph": [0, 1, 2, 3], "GCsp": [0, 1, 2, 3], "X": [3]},
    {"WL": [0, 1, 2, 3], "GCph": [0, 1, 2], "GCsp": [0, 1, 2], "X": [0]},
]
BINS = [{"WL": 1, "GCph": 1, "GCsp": 1}, {"WL": 2, "GCph": 2, "GCsp": 1}, {"WL": 2, "GCph": 1, "GCsp": 2}]
PARS = [  # name, kind/probe, free
    [("Omm", None, True), ("h", None, False), ("w0", None, True), ("bgph1", "GCph", True), ("bgsp1", "GCsp", True),
     ("aIA", "WL", True), ("bIA", "WL", False)],
    [("bgsp1", "GCsp", False), ("w0", None, True), ("bgph2", "GCph", True), ("bgph1", "GCph", True), ("aIA", "WL", False)],
]


def cases(tier):
    top = 3 if tier == "quick" else 5
    for lay, b, st, par in itertools.product(range(len(LAYOUTS)), range(len(BINS)), range(2), range(len(PARS))):
        if tier == "quick" and (st + par + lay + b) % 2:
            continue
        for k in range(1, top + 1):
            combs = list(itertools.combinations(range(6), k))
            for i in range(0, len(combs), 5):
                yield {"lay": lay, "bins": b, "stored": st, "par": par, "vecs": [list(c) for c in combs[i:i + 5]]}


CHUNK = 4


def ells_of(lay, pair):
    a, b = pair
    L = LAYOUTS[lay]
    s = set(L[a]) & set(L[b])
    if a != b:
        s -= set(L.get("X", []))
    return sorted(s)


class World:
    """the inputs, and the reference computed from the same arrays without the repository's help"""

    def __init__(self, case):
        from seyfert.cosmology.parameter import PhysicalParameter as PP, PhysicalParametersCollection as PPC
        from seyfert.fisher.delta_cl import DeltaCl, DeltaClCollection
        from seyfert.derivatives.cl_derivative import ClDerivative, ClDerivativeCollector
        self.lay, self.nb = case["lay"], BINS[case["bins"]]
        fields = [(p, i) for p in AL for i in range(self.nb[p])]
        n = len(fields)
        self.pos = {f: i for i, f in enumerate(fields)}
        self.S, self.D = {}, {}
        free = [p for p in PARS[case["par"]] if p[2]]
        for il in range(len(ELL)):
            base = np.array([[((i * 5 + j * 3 + il * 7 + 2 * i * j) % 13) / 13.0 for j in range(n)] for i in range(n)])
            self.S[il] = base @ base.T + np.diag([1.0 + 0.3 * ((i + il) % 4) for i in range(n)])
            for ip, (name, probe, _) in enumerate(free):
                m = np.array([[((i * 4 + j * 4 + i * j * 3 + il * 5 + ip * 6) % 11) / 11.0 - 0.3 for j in range(n)]
                              for i in range(n)])
                m = m + m.T
                if probe is not None:
                    for f, i in self.pos.items():
                        for g, j in self.pos.items():
                            if probe not in (f[0], g[0]):
                                m[i, j] = 0.0
                self.D[name, il] = m
        self.free = free
        pars = {}
        for name, probe, fr in PARS[case["par"]]:
            if probe is None:
                pars[name] = PP.createCosmologicalParameter(name=name, fiducial=0.5, is_free_parameter=fr)
            else:
                pars[name] = PP.createNuisanceParameter(name=name, fiducial=0.5, is_free_parameter=fr, probe=LONG[probe])
        self.phys_pars = PPC(data_dict=pars, base_stem_disps=np.array([0.1]), is_universe_flat=False)
        self.delta = DeltaClCollection()
        self.ders = {name: ClDerivativeCollector(dvar=name) for name, _, _ in free}
        for a, b in PAIRS:
            if case["stored"]:
                a, b = b, a
            key = f"{LONG[a]}_{LONG[b]}"
            il = ells_of(self.lay, (a, b))
            d = DeltaCl(name=key)
            d.delta_c_lij = self.block(self.S, a, b, il)
            d.l_bin_centers = ELL[il]
            d.probe_1, d.probe_2 = LONG[a], LONG[b]
            self.delta.single_blocks[key] = d
            for name, _, _ in free:
                c = ClDerivative(p1=LONG[a], p2=LONG[b])
                c.l_bin_centers = ELL[il]
                c.dc_lij = self.block({i: self.D[name, i] for i in il}, a, b, il)
                self.ders[name].dcl_dict[key] = c

    def block(self, M, a, b, il):
        ia = [self.pos[a, i] for i in range(self.nb[a])]
        ib = [self.pos[b, i] for i in range(self.nb[b])]
        return np.array([M[i][np.ix_(ia, ib)] for i in il])

    def snapshot(self):
        out = {}
        for k, d in self.delta.single_blocks.items():
            out[k] = (d.delta_c_lij.copy(), d.l_bin_centers.copy())
        for n, c in self.ders.items():
            for k, d in c.dcl_dict.items():
                out[n, k] = (d.dc_lij.copy(), d.l_bin_centers.copy())
        return out

    # ---- reference
    def components(self, vec):
        """the observables: unordered bin pairs of an auto-correlation, all bin pairs of a cross"""
        out = []
        for a, b in vec:
            for i in range(self.nb[a]):
                for j in range(self.nb[b]):
                    if a != b or i <= j:
                        out.append((self.pos[a, i], self.pos[b, j]))
        return out

    def ref_f_ell(self, vec, il):
        comp = self.components(vec)
        S = self.S[il]
        n = len(comp)
        cov = np.zeros((n, n))
        for x, (a, b) in enumerate(comp):
            for y, (c, d) in enumerate(comp):
                cov[x, y] = (S[a, c] * S[b, d] + S[a, d] * S[b, c]) / (2 * ELL[il] + 1)
        names = self.names(vec)
        d = {p: np.array([self.D[p, il][c] for c in comp]) for p in names}
        sol = {p: np.linalg.solve(cov, d[p]) for p in names}
        return {(p, q): float(d[p] @ sol[q]) for p in names for q in names}

    def names(self, vec):
        probes = {p for pair in vec for p in pair}
        return [n for n, pr, _ in self.free if pr is None or pr in probes]

    def cov_ells(self, vec):
        s = set(range(len(ELL)))
        for (a, b), (c, d) in itertools.product(vec, repeat=2):
            for p in ((a, c), (b, d), (a, d), (b, c)):
                s &= set(ells_of(self.lay, p))
        return sorted(s)

    def der_ells(self, vec):
        s = set(range(len(ELL)))
        for p in vec:
            s &= set(ells_of(self.lay, p))
        return sorted(s)

    def ref(self, vec):
        """None: the multipoles of spectra and derivatives cannot be reconciled"""
        il = self.cov_ells(vec)
        if il != self.der_ells(vec):
            return None
        tot = {}
        for i in il:
            for k, v in self.ref_f_ell(vec, i).items():
                tot[k] = tot.get(k, 0.0) + v
        if not (len(vec) == 1 and vec[0][0] == vec[0][1]):
            for a, b in vec:
                if a == b:
                    for i in ells_of(self.lay, (a, a)):
                        if i not in il:
                            for k, v in self.ref_f_ell([(a, a)], i).items():
                                tot[k] = tot.get(k, 0.0) + v
        return tot


def same(df, want, names):
    if set(df.index) != set(names) or set(df.columns) != set(names) or len(df.index) != len(names):
        return f"labels {list(df.index)} x {list(df.columns)} expected {names}"
    for p in names:
        for q in names:
            g, w = float(df.loc[p, q]), want.get((p, q), 0.0)
            sc = max(np.sqrt(abs(want[p, p] * want[q, q])), abs(w))
            if not abs(g - w) <= 1e-7 * sc + 1e-12:
                return f"entry ({p},{q}) is {g}, expected {w}"
    return None


def raw(pair, kind):
    a, b = pair
    return {"alias": (a, b), "short": SHORT[a] + SHORT[b], "long": f"{LONG[a]}_{LONG[b]}"}[kind]


def run_case(case, ctx):
    from seyfert.fisher.fisher_evaluator import FisherEvaluator, MultipoleError
    from seyfert.fisher.datavector import ClDataVector
    w = World(case)
    snap = w.snapshot()
    auto = {}
    for a in AL:
        ev = FisherEvaluator([(a, a)])
        F, fl = ev.computeFisherMatrix(w.phys_pars, w.ders, w.delta, return_f_ell=True)
        auto[a] = fl
        il = ells_of(w.lay, (a, a))
        names = w.names([(a, a)])
        msg = same(F, w.ref([(a, a)]), names)
        ctx.check(msg is None, "auto", f"{case} {a}: {msg}")
        ctx.check(np.array_equal(np.asarray(fl.index, float), ELL[il]), "auto-ells", lambda: f"{case} {a}: {list(fl.index)}")
        for i in il:
            want = w.ref_f_ell([(a, a)], i)
            for p, q in itertools.product(names, repeat=2):
                g = float(fl.loc[ELL[i], (p, q)])
                if not abs(g - want[p, q]) <= 1e-7 * np.sqrt(want[p, p] * want[q, q]) + 1e-12:
                    ctx.fail("f-ell", f"{case} {a} ell {ELL[i]} ({p},{q}): {g} expected {want[p, q]}")
        ctx.step()
    kinds = ["alias", "short", "long"]
    fsnap = {a: f.copy() for a, f in auto.items()}
    for ids in case["vecs"]:
        vec0 = [PAIRS[i] for i in ids]
        want, names = w.ref(vec0), w.names(vec0)  # neither order nor orientation matters
        for n, perm in enumerate(itertools.permutations(vec0)):
            crosses = [x for x, (a, b) in enumerate(perm) if a != b]
            for flip in itertools.product((False, True), repeat=len(crosses)):
                v = list(perm)
                for x, f in zip(crosses, flip):
                    if f:
                        v[x] = (v[x][1], v[x][0])
                single = len(v) == 1 and v[0][0] == v[0][1]
                ks = [kinds[(n + i) % 3] if n % 2 else kinds[n % 3] for i in range(len(v))]
                ks = ks if len(set(ks)) == 1 else [ks[0]] * len(v)
                ev = FisherEvaluator(ClDataVector([raw(p, k) for p, k in zip(v, ks)]))
                if want is None:
                    ctx.raises(Exception, lambda: ev.computeFisherMatrix(w.phys_pars, w.ders, w.delta, auto_f_ells=auto),
                               "mismatch-accepted", f"{case} {v}")
                else:
                    F = ev.computeFisherMatrix(w.phys_pars, w.ders, w.delta, auto_f_ells=None if single else auto)
                    msg = same(F, want, names)
                    ctx.check(msg is None, "fisher", f"{case} vector {v}: {msg}")
                    ctx.eq(set(ev.free_nuisance_parameters), {q for q in names if dict((a, b) for a, b, _ in w.free)[q]},
                           "nuisance-set", f"{v}")
                    ctx.eq(set(ev.free_cosmological_parameters), {q for q, pr, _ in w.free if pr is None}, "cosmo-set", f"{v}")
                    if not single and n == 0:
                        ctx.raises(ValueError, lambda: FisherEvaluator(v).computeFisherMatrix(w.phys_pars, w.ders, w.delta),
                                   "missing-autos-accepted", f"{v}")
                        F2, fl = FisherEvaluator(v).computeFisherMatrix(w.phys_pars, w.ders, w.delta, return_f_ell=True,
                                                                         auto_f_ells=auto)
                        msg = same(F2, want, names)
                        ctx.check(msg is None, "fisher", f"{case} vector {v} with f_ell: {msg}")
                        ctx.check(np.array_equal(np.asarray(fl.index, float), ELL[w.cov_ells(v)]), "f-ell-index", f"{v}")
                ctx.step()
                ctx.trace()
                if len(ctx.failures) > 5:
                    return
        ctx.state((case["lay"], case["bins"], case["par"], tuple(ids)))
        if want is not None and len(ids) > 1:
            ctx.note({"vector": [raw(p, "alias") for p in v], "parameters": names, "ells": [float(ELL[i]) for i in w.cov_ells(v)]})
    # derivatives on another grid than the spectra are refused, whichever parameters they belong to
    if case["vecs"][0] == [0]:
        for vec in ([("WL", "WL")], [("WL", "WL"), ("GCph", "GCph")], [("GCsp", "GCph"), ("WL", "WL")]):
            if w.ref(vec) is None:
                continue
            names = w.names(vec)
            for sel in [names] + [[n] for n in names] + [[m for m in names if m != n] for n in names if len(names) > 1]:
                w2 = World(case)
                for n in sel:
                    for d in w2.ders[n].dcl_dict.values():
                        d.l_bin_centers = d.l_bin_centers + 1.0
                ctx.raises(MultipoleError, lambda: FisherEvaluator(vec).computeFisherMatrix(
                    w2.phys_pars, w2.ders, w2.delta, auto_f_ells=auto), "shifted-grid-accepted", f"{case} {vec} shifted {sel}")
                ctx.step()
        # an evaluator used again, on other inputs, gives the result for those inputs
        others = [World({**case, "bins": (case["bins"] + 1) % 3}), World({**case, "par": 1 - case["par"]}), w]
        for vec in ([("WL", "WL")], [("GCsp", "GCsp")], [("WL", "WL"), ("GCph", "GCph")], [("GCph", "WL")]):
            ev = FisherEvaluator(vec)
            for n, o in enumerate([w] + others):
                if o.ref(vec) is None:
                    break
                aut = None
                if vec != [(vec[0][0],) * 2]:
                    aut = {a: FisherEvaluator([(a, a)]).computeFisherMatrix(o.phys_pars, o.ders, o.delta, return_f_ell=True)[1]
                           for a in AL}
                F = ev.computeFisherMatrix(o.phys_pars, o.ders, o.delta, auto_f_ells=aut)
                msg = same(F, o.ref(vec), o.names(vec))
                ctx.check(msg is None, "evaluator-reused", f"{case} {vec} use {n + 1}: {msg}")
                ctx.eq(set(ev.free_nuisance_parameters), {q for q, pr, _ in o.free if pr is not None and q in o.names(vec)},
                       "nuisance-set", f"{vec} use {n + 1}")
                ctx.step()
    after = w.snapshot()
    for k in snap:
        ctx.check(all(np.array_equal(x, y) for x, y in zip(snap[k], after[k])), "inputs-mutated", f"{case} {k}")
    for a in AL:
        ctx.check(fsnap[a].equals(auto[a]), "inputs-mutated", f"{case} auto {a}")

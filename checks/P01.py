"""Varying one physical parameter at a time: histories of variations and resets against a reference state machine."""
import itertools
import numpy as np
from vlib.core import REPO

PROPERTY = "P01"
LEVEL = "model_checking"
RULE = ("every history of variation/reset requests up to the depth bound over a 5-parameter collection (zero, tiny and "
        "negative fiducials, fixed parameter, nuisance parameter, all flat/free flag combinations) and every ordered "
        "pair and triple-through-reset of the shipped parameter sets; a state is the vector of current values")
BOUNDS = {"quick": "depth 3 on 5 parameters x 4 steps x 10 configurations; all ordered pairs of the shipped sets",
          "thorough": "depth 4 on the small collections; all ordered pairs of the shipped sets at every step"}

EPS = [0.01, 0.1]


def build(cfg):
    from seyfert.cosmology.parameter import PhysicalParameter as PP, PhysicalParametersCollection as PPC
    pars = {
        "Omm": PP.createCosmologicalParameter(name="Omm", fiducial=0.25, is_free_parameter=cfg["omm"]),
        "OmDE": PP.createCosmologicalParameter(name="OmDE", fiducial=cfg.get("fid_omde", 0.75),
                                                   is_free_parameter=cfg["omde"]),
        "wa": PP.createCosmologicalParameter(name="wa", fiducial=0.0, is_free_parameter=True, stem_factor=3.0),
        "w0": PP.createCosmologicalParameter(name="w0", fiducial=-1.0, is_free_parameter=cfg["w0"], stem_factor=0.5),
        "bg1": PP.createNuisanceParameter(name="bg1", fiducial=1.5e-9, is_free_parameter=cfg["bg1"],
                                          probe="PhotometricGalaxy"),
    }
    return PPC(data_dict=pars, base_stem_disps=np.array(cfg["eps"]), is_universe_flat=cfg["flat"])


def cfgs():
    for flat, (omm, omde) in itertools.product([True, False], [(True, False), (False, True), (False, False),
                                                               (True, True)]):
        yield {"flat": flat, "omm": omm, "omde": omde, "w0": not (omm and omde), "bg1": omm != omde, "eps": EPS}
    # fiducial densities that do not sum to one: refused in a flat universe, accepted otherwise
    for flat, fid in [(True, 0.625), (False, 0.625), (True, 0.7500001), (True, 0.745), (True, 0.0)]:
        yield {"flat": flat, "omm": True, "omde": False, "w0": True, "bg1": True, "eps": EPS, "fid_omde": fid}


def cases(tier):
    depth = 3 if tier == "quick" else 4
    for cfg in cfgs():
        for first in range(len(ops_of(cfg))):
            yield {"kind": "hist", "cfg": cfg, "first": first, "depth": depth}
    for n in ([1, 2, 3, 7, 12] if tier == "quick" else range(1, 31)):
        yield {"kind": "grid", "n": n}
    for which in ["basic", "test"]:
        for part in range(8):
            yield {"kind": "shipped", "which": which, "part": part, "all": tier == "thorough"}


def ops_of(cfg):
    n = len(cfg["eps"])
    steps = list(range(-n, 0)) + list(range(1, n + 1))
    return [("vary", p, s) for p in ["Omm", "OmDE", "wa", "w0", "bg1"] for s in steps] + \
        [("central", 0), ("central", steps[0]), ("central", steps[-1]), ("reset",)]


class Model:
    def __init__(self, coll_desc, flat, eps):
        self.d = coll_desc  # name -> (fid, stem, free)
        self.flat = flat
        self.disp = {s: (e if s > 0 else -e) for s, e in
                     [(i + 1, e) for i, e in enumerate(sorted(eps))] + [(-i - 1, e) for i, e in
                                                                       enumerate(sorted(eps))]}
        self.cur = {}
        self.reset()
        self.bad = False

    def reset(self):
        self.cur = {n: v[0] for n, v in self.d.items()}

    def value(self, p, step):
        fid, stem, _ = self.d[p]
        scale = fid if fid != 0 else 1.0
        return fid + self.disp[step] * stem * scale

    def vary(self, p, step):
        """returns False if the request must be refused"""
        fid, stem, free = self.d[p]
        if not free:
            return False
        if self.flat and p in ("Omm", "OmDE"):
            other = "OmDE" if p == "Omm" else "Omm"
            if self.d[other][2] or self.d[p][0] + self.d[other][0] != 1:
                return False
            self.cur[p] = self.value(p, step)
            self.cur[other] = 1 - self.cur[p]
        else:
            self.cur[p] = self.value(p, step)
        return True


def close(a, b):
    """equal to rounding; values here are never the small difference of large ones except the zeros of exact arithmetic"""
    return a == b or abs(a - b) <= 1e-12 * max(abs(a), abs(b))


def compare(ctx, coll, model, hist, names):
    ok = True
    for n in names:
        got, want = coll[n].current_value, model.cur[n]
        if not close(got, want):
            ctx.fail("value", f"after {hist}: {n} is {got!r}, expected {want!r}")
            ok = False
        if coll[n].fiducial != model.d[n][0]:
            ctx.fail("fiducial", f"after {hist}: fiducial of {n} became {coll[n].fiducial!r}")
            ok = False
    return ok


def apply(ctx, coll, model, op, hist):
    """drives one request on both sides; after a refused request the state must be restored by a reset"""
    from seyfert.cosmology.parameter import ParameterError
    if op[0] == "reset":
        coll.resetPhysicalParametersToFiducial()
        model.reset()
    elif op[0] == "central":
        coll.updatePhysicalParametersForDvarStep(dvar="central", step=op[1])
        model.reset()
    else:
        _, p, s = op
        if model.vary(p, s):
            coll.updatePhysicalParametersForDvarStep(dvar=p, step=s)
        else:
            try:
                coll.updatePhysicalParametersForDvarStep(dvar=p, step=s)
            except ParameterError:
                # what a refused request leaves behind is not specified, except for the parameters not named
                for n in model.d:
                    if n != p and not close(coll[n].current_value, model.cur[n]):
                        ctx.fail("refused-touched", f"after refused {op} following {hist}: {n} changed")
                coll.resetPhysicalParametersToFiducial()
                model.reset()
            else:
                ctx.fail("not-refused", f"{op} must be refused after {hist}")
                coll.resetPhysicalParametersToFiducial()
                model.reset()


def run_case(case, ctx):
    if case["kind"] == "hist":
        cfg = case["cfg"]
        ops = ops_of(cfg)
        names = ["Omm", "OmDE", "wa", "w0", "bg1"]
        coll = build(cfg)
        desc = {n: (coll[n].fiducial, coll[n].stem_factor, coll[n].is_free_parameter) for n in names}
        for tail in itertools.product(range(len(ops)), repeat=case["depth"] - 1):
            seq = (case["first"],) + tail
            # bring both to a known state without using the operations under test
            for n in names:
                coll[n].current_value = desc[n][0]
            model = Model(desc, cfg["flat"], cfg["eps"])
            hist = []
            for i in seq:
                apply(ctx, coll, model, ops[i], hist)
                hist.append(ops[i])
                ctx.step()
                ok = compare(ctx, coll, model, hist, names)
                ctx.state((cfg["flat"], cfg["omm"], cfg["omde"], tuple(sorted(model.cur.items()))))
                if not ok:
                    return
            ctx.trace()
            if len(ctx.failures) > 20:
                return
        ctx.note({"cfg": cfg, "history": [ops[i] for i in seq], "state": model.cur})
    elif case["kind"] == "grid":
        # the displacement grid: symmetric, sorted, steps -n..-1,1..n, whatever the order it is given in
        from seyfert.cosmology.parameter import PhysicalParameter as PP, PhysicalParametersCollection as PPC
        n = case["n"]
        base = [0.00625 * (i + 1) + 0.001 * (i % 3) for i in range(n)]
        orders = [base, base[::-1], base[n // 2:] + base[:n // 2]]
        for given in orders:
            for as_list in (True, False):
                coll = PPC(data_dict={})
                coll.loadStemDisplacements(list(given) if as_list else np.array(given))
                srt = sorted(base)
                want_steps = list(range(-n, 0)) + list(range(1, n + 1))
                want = [-x for x in srt[::-1]] + srt
                ctx.eq([int(s) for s in coll.stem_steps], want_steps, "grid-steps")
                ctx.check(np.array_equal(np.asarray(coll.stem_disps, float), np.array(want)), "grid-disps",
                          lambda: f"displacements {coll.stem_disps} expected {want}")
                ctx.eq({int(k): float(v) for k, v in coll.stem_dict.items()}, dict(zip(want_steps, want)),
                       "grid-dict")
                for fid, stem in [(0.0, 1.0), (0.3, 1.0), (-1.0, 0.5), (2.0, 7.0), (0.0, 2.0), (2.1e-9, 1.0), (-1e-15, 2.0), (3e7, 0.5)]:
                    p = PP.createCosmologicalParameter(name="q", fiducial=fid, is_free_parameter=True,
                                                       stem_factor=stem)
                    coll["q"] = p
                    vals = coll.computePhysParSTEMValues(dvar="q")
                    exp = [fid + e * stem * (fid if fid != 0 else 1) for e in want[:n]] + [fid] + \
                          [fid + e * stem * (fid if fid != 0 else 1) for e in want[n:]]
                    ctx.check(len(vals) == 2 * n + 1 and np.allclose(vals, exp, rtol=1e-13, atol=0), "grid-values",
                              lambda: f"values {vals} expected {exp}")
                    # and one value per step, as the update leaves it
                    for s in want_steps:
                        coll.updatePhysicalParametersForDvarStep(dvar="q", step=s)
                        i = want_steps.index(s)
                        w = exp[i] if s < 0 else exp[i + 1]
                        ctx.check(close(p.current_value, w), "grid-update", lambda: f"step {s}: {p.current_value} {w}")
                        ctx.step()
                        ctx.state((n, fid, stem, s))
                ctx.trace()
    else:
        coll = shipped(case["which"])
        names = list(coll.keys())
        desc = {n: (coll[n].fiducial, coll[n].stem_factor, coll[n].is_free_parameter) for n in names}
        eps = [float(x) for x in coll.stem_disps if x > 0]
        n = len(eps)
        steps = [-n, -1, 1, n] if not case["all"] else list(range(-n, 0)) + list(range(1, n + 1))
        free = [x for x in names if desc[x][2]]
        flat = bool(coll.is_universe_flat)
        ops = [(p, s) for p in free for s in steps]
        for i, a in enumerate(ops):
            if i % 8 != case["part"]:
                continue
            for b in ops:
                model = Model(desc, flat, eps)
                coll.resetPhysicalParametersToFiducial()
                hist = [("vary",) + a]
                apply(ctx, coll, model, ("vary",) + a, [])
                ok = compare(ctx, coll, model, hist, names)
                apply(ctx, coll, model, ("reset",), hist)
                hist.append(("reset",))
                ok = ok and compare(ctx, coll, model, hist, names)
                apply(ctx, coll, model, ("vary",) + b, hist)
                hist.append(("vary",) + b)
                ok = ok and compare(ctx, coll, model, hist, names)
                apply(ctx, coll, model, ("central", 0), hist)
                hist.append(("central", 0))
                ok = ok and compare(ctx, coll, model, hist, names)
                ctx.step(4)
                ctx.trace()
                ctx.state((case["which"], a, b))
                if not ok:
                    return


def shipped(which):
    import seyfert.utils.filesystem_utils as fsu
    from seyfert.config.forecast_config import ForecastConfig
    f = fsu.basic_forecast_config() if which == "basic" else fsu.the_test_data_dir() / "test_fcfg.json"
    fc = ForecastConfig(input_data_dir=fsu.default_data_dir(), input_file=f)
    fc.loadPhysicalParametersFromJSONConfig()
    return fc.phys_pars

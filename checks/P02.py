"""Parameter sets: lossless JSON persistence, selection queries."""
import copy
import itertools
import json
import numpy as np

PROPERTY = "P02"
LEVEL = "model_checking"
RULE = ("every parameter of a 2x2x4x3x3x2x2 attribute grid alone, every ordered arrangement of up to 3 (thorough 4) "
        "parameters of a 6-element alphabet with every flat flag, each after every single variation, written and read "
        "back by both entry points, plus every selection query; a state is one parameter set with its current values")
BOUNDS = {"quick": "all single parameters of the grid; arrangements of up to 3 of 6",
          "thorough": "arrangements of up to 4 of 6"}

FIDS = [0.0, -1.0, 0.1 + 0.2, 1e-9]
CURS = [None, 1.0 / 3.0, 0.0]
STEMS = [1.0, 0.1, 7.0, 0.0, -2.5]
PROBES = ["PhotometricGalaxy", "SpectroscopicGalaxy", "Void", "Lensing"]
# asked for as well: names no parameter has, beginning or ending like one which some have
ASKED = PROBES + ["Photo", "Galaxy", "PhotometricGalaxy2", "lensing", ""]

ALPHA = [
    dict(name="Omm", fiducial=0.25, kind="C", free=True, stem=1.0, method="SteM", units="None", probe=None),
    dict(name="OmDE", fiducial=0.75, kind="C", free=False, stem=1.0, method="SteM", units="None", probe=None),
    dict(name="wa", fiducial=0.0, kind="C", free=True, stem=0.3, method="SteM", units="km", probe=None),
    dict(name="bgph10", fiducial=1.1, kind="N", free=True, stem=1.0, method="analytic", units="None",
         probe="PhotometricGalaxy"),
    dict(name="bgsp2", fiducial=1.2, kind="N", free=False, stem=1.0, method="SteM", units="None",
         probe="SpectroscopicGalaxy"),
    dict(name="aIA", fiducial=1.72, kind="N", free=True, stem=2.0, method="SteM", units="None", probe="Lensing"),
]


def mk(a, current=None):
    from seyfert.cosmology.parameter import PhysicalParameter as PP
    return PP(name=a["name"], fiducial=a["fiducial"], current_value=current,
              kind=PP.COSMO_PAR_STRING if a["kind"] == "C" else PP.NUISANCE_PAR_STRING, probe=a["probe"],
              is_free_parameter=a["free"], stem_factor=a["stem"], units=a["units"], derivative_method=a["method"])


def attrs(p):
    return (p.name, float(p.fiducial), float(p.current_value), p.kind, p.probe if p.is_nuisance else None,
            bool(p.is_free_parameter), float(p.stem_factor), p.derivative_method, p.units)


def cases(tier):
    yield {"kind": "single"}
    top = 3 if tier == "quick" else 4
    for k in range(1, top + 1):
        for idx in itertools.permutations(range(len(ALPHA)), k):
            yield {"kind": "set", "idx": list(idx)}
    yield {"kind": "shipped"}


CHUNK = 4


def roundtrip(ctx, coll, d, label):
    """write, then read by both entry points, full and cosmological-only"""
    from seyfert.cosmology.parameter import PhysicalParametersCollection as PPC
    before = [attrs(p) for p in coll.values()]
    f = d / "p.json"
    coll.writeJSON(f)
    ctx.eq([attrs(p) for p in coll.values()], before, "write-mutates", label)
    for only in (False, True):
        want = [a for a, p in zip(before, coll.values()) if p.is_cosmological or not only]
        one = PPC.fromJSON(f, only_cosmological=only)
        two = PPC()
        two.readJSON(f, only_cosmological=only)
        # a set that had been read before, in another state, with other displacements and the other flatness
        three = PPC()
        docs = json.loads(f.read_text())
        for doc in docs[:-1]:
            doc.update(current_value=doc["fiducial"] + 0.5, is_free_parameter=not doc["is_free_parameter"], units="old",
                       stem_factor=doc["stem_factor"] + 1)
        docs[-1] = {"base_stem_disps": [0.3, 0.4], "is_universe_flat": not coll.is_universe_flat}
        (d / "old.json").write_text(json.dumps(docs))
        three.readJSON(d / "old.json", only_cosmological=only)
        three.readJSON(f, only_cosmological=only)
        four = PPC(base_stem_disps=np.array([0.2]), is_universe_flat=not coll.is_universe_flat)
        four.readJSON(f, only_cosmological=only)
        for nm, got in (("fromJSON", one), ("readJSON", two), ("readJSON again", three), ("readJSON with defaults", four)):
            ctx.eq([attrs(p) for p in got.values()], want, "roundtrip", f"{label} {nm} only_cosmological={only}:")
            ctx.eq(list(got.keys()), [a[0] for a in want], "roundtrip-keys", label)
            ctx.check(bool(got.is_universe_flat) == bool(coll.is_universe_flat), "roundtrip-flat", label)
            ctx.check(np.array_equal(got.stem_disps, coll.stem_disps), "roundtrip-disps",
                      lambda: f"{label}: displacements {got.stem_disps} expected {coll.stem_disps}")
            ctx.eq({int(k): float(v) for k, v in got.stem_dict.items()},
                   {int(k): float(v) for k, v in coll.stem_dict.items()}, "roundtrip-steps", label)
            ctx.step()
        ctx.trace()
    # a second write of what was read gives the same document
    one = PPC.fromJSON(f)
    g = d / "q.json"
    one.writeJSON(g)
    ctx.eq(json.loads(g.read_text()), json.loads(f.read_text()), "rewrite", label)


def queries(ctx, coll, desc, label):
    names = list(coll.keys())

    def sel(pred):
        return [n for n in names if pred(desc[n])]

    got = {
        "cosmo": list(coll.cosmological_parameters), "nuis": list(coll.nuisance_parameters),
        "free": list(coll.free_physical_parameters), "freecosmo": list(coll.free_cosmological_parameters),
        "cosmofid": dict(coll.cosmo_pars_fiducials), "freecosmofid": dict(coll.free_cosmo_pars_fiducials),
        "cosmocur": dict(coll.cosmo_pars_current_values),
    }
    want = {
        "cosmo": sel(lambda a: a["kind"] == "C"), "nuis": sel(lambda a: a["kind"] == "N"),
        "free": sel(lambda a: a["free"]), "freecosmo": sel(lambda a: a["free"] and a["kind"] == "C"),
        "cosmofid": {n: desc[n]["fiducial"] for n in sel(lambda a: a["kind"] == "C")},
        "freecosmofid": {n: desc[n]["fiducial"] for n in sel(lambda a: a["kind"] == "C" and a["free"])},
        "cosmocur": {n: coll[n].current_value for n in sel(lambda a: a["kind"] == "C")},
    }
    for k in want:
        ctx.eq(got[k], want[k], f"query-{k}", label)
    for p in ASKED:
        n = sel(lambda a: a["kind"] == "N" and a["probe"] == p)
        fn = sel(lambda a: a["kind"] == "N" and a["probe"] == p and a["free"])
        ctx.eq(list(coll.getNuisanceParametersForProbe(p)), n, "query-probe-nuisance", f"{label} {p}")
        ctx.eq(list(coll.getFreeNuisanceParametersForProbe(p)), fn, "query-probe-free", f"{label} {p}")
        ctx.eq(sorted(coll.getFreePhysicalParametersForProbe(p)), sorted(want["freecosmo"] + fn), "query-probe-all",
               f"{label} {p}")
    ctx.eq(list(coll.keys()), names, "query-mutates", label)
    for n in names:
        ctx.check(coll[n] is not None and coll[n].is_galaxy_bias_parameter ==
                  (desc[n]["kind"] == "N" and n.startswith("bg")), "query-bias", f"{label} {n}")
    ctx.step()


def run_case(case, ctx):
    from seyfert.cosmology.parameter import PhysicalParameter as PP, PhysicalParametersCollection as PPC
    if case["kind"] == "single":
        with ctx.scratch() as d:
            for kind, free, fid, cur, stem, method, units in itertools.product(
                    "CN", (True, False), FIDS, CURS, STEMS, ("SteM", "analytic"), ("None", "km/s/Mpc")):
                for probe in ([None] if kind == "C" else PROBES):
                    a = dict(name="p1", fiducial=fid, kind=kind, free=free, stem=stem, method=method, units=units,
                             probe=probe)
                    p = mk(a, cur)
                    ref = attrs(p)
                    ctx.eq(ref[2], fid if cur is None else cur, "initial-value", str(a))
                    ctx.eq(attrs(PP.from_dict(p.to_dict())), ref, "dict-roundtrip", str(a))
                    f = d / "x.json"
                    f.write_text(p.to_JSON())
                    ctx.eq(attrs(PP.fromJSON(f)), ref, "json-roundtrip", str(a))
                    ctx.check(PP.fromJSON(f) == p, "json-equality", str(a))
                    if fid == FIDS[2] and stem == STEMS[1]:
                        np_flag = mk(dict(a, free=np.bool_(free)), cur)
                        f.write_text(np_flag.to_JSON())
                        ctx.eq(attrs(PP.fromJSON(f)), ref, "json-numpy-flag", str(a))
                        PPC(data_dict={"p1": np_flag}, base_stem_disps=np.array([0.1]), is_universe_flat=False).writeJSON(f)
                        ctx.eq([attrs(q) for q in PPC.fromJSON(f).values()], [ref], "set-numpy-flag", str(a))
                    ctx.eq(attrs(copy.deepcopy(p)), ref, "copy", str(a))
                    ctx.state(ref)
                    ctx.step(3)
                    ctx.trace()
            wrong = dict(name=(3, None, b"a", ["a"], False), fiducial=(1, "1.0", None, True, [1.0], 1j),
                         is_free_parameter=("yes", None, 1, 0, 1.0, "True", []),
                         kind=("x", None, "", "cosmologicalParameter", "Cosmological", "Nuisance", "Parameter", 1))
            for kind, free, fid in itertools.product((PP.COSMO_PAR_STRING, PP.NUISANCE_PAR_STRING), (True, False),
                                                     (0.0, 1.0)):
                good = dict(name="a", fiducial=fid, is_free_parameter=free, kind=kind)
                if kind == PP.NUISANCE_PAR_STRING:
                    ctx.raises((TypeError, ValueError), lambda: PP(**good), "no-probe-accepted", str(good))
                    ctx.raises((TypeError, ValueError), lambda: PP.from_dict(dict(good, current_value=1.0)),
                               "no-probe-accepted", str(good))
                    good["probe"] = "Lensing"
                PP(**good)
                for what, values in wrong.items():
                    for v in values:
                        ctx.raises((TypeError, ValueError), lambda: PP(**dict(good, **{what: v})), "invalid-accepted",
                                   f"{what}={v!r} in {good}")
                        ctx.step()
                    less = {k: v for k, v in good.items() if k != what}
                    ctx.raises((TypeError, ValueError), lambda: PP(**less), "missing-accepted", f"{what} in {good}")
                    if what != "kind":
                        make = PP.createCosmologicalParameter if kind == PP.COSMO_PAR_STRING else PP.createNuisanceParameter
                        del less["kind"]
                        ctx.raises((TypeError, ValueError), lambda: make(**less), "missing-accepted", f"{what} in {good}")
        ctx.note({"single": list(ref)})
        return
    if case["kind"] == "shipped":
        from checks.P01 import shipped
        with ctx.scratch() as d:
            for which in ("basic", "test"):
                coll = shipped(which)
                desc = {n: dict(kind="C" if p.is_cosmological else "N", free=p.is_free_parameter,
                                fiducial=p.fiducial, probe=p.probe) for n, p in coll.items()}
                roundtrip(ctx, coll, d, which)
                queries(ctx, coll, desc, which)
                for n in coll.free_physical_parameters:
                    for s in coll.stem_dict:
                        coll.updatePhysicalParametersForDvarStep(dvar=n, step=s)
                        roundtrip(ctx, coll, d, f"{which} {n} {s}")
                        ctx.state((which, n, int(s)))
                        coll.resetPhysicalParametersToFiducial()
        return
    sel = [ALPHA[i] for i in case["idx"]]
    with ctx.scratch() as d:
        for flat in (True, False):
            desc = {a["name"]: a for a in sel}
            for disp in ([0.1], [0.00625, 0.0125, 1.0 / 30]):
                coll = PPC(data_dict={a["name"]: mk(a) for a in sel}, base_stem_disps=np.array(disp),
                           is_universe_flat=flat)
                queries(ctx, coll, desc, str(case["idx"]))
                muts = [None] + [(n, s) for n in coll.free_physical_parameters for s in (-1, len(disp))
                                 if not (flat and n == "Omm" and "OmDE" not in desc)]
                for m in muts:
                    if m is not None:
                        coll.updatePhysicalParametersForDvarStep(dvar=m[0], step=m[1])
                    roundtrip(ctx, coll, d, f"{case['idx']} flat={flat} after {m}")
                    queries(ctx, coll, desc, str(case["idx"]))
                    ctx.state((case["idx"], flat, disp, m))
                    coll.resetPhysicalParametersToFiducial()
                # the same set keeps its content after a deep copy, and copies are independent
                cp = copy.deepcopy(coll)
                n0 = list(cp.keys())[0]
                cp[n0].current_value = 99.0
                ctx.check(coll[n0].current_value != 99.0, "copy-aliased", str(case["idx"]))
    ctx.note({"set": [a["name"] for a in sel]})

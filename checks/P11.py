"""Variations of the spectra through the pipeline: one parameter at a time, the right cosmology, nothing left behind."""
import itertools
import numpy as np

from checks import P10, P12

PROPERTY = "P11"
LEVEL = "model_checking"
RULE = ("all sequences of parameters varied one after the other on the same parameter set, densities and fiducial spectra; a "
        "state is (world, parameters varied so far); every spectrum of every step and every derivative is compared with the "
        "Limber integral at that displacement and the SteM definition")
BOUNDS = {"quick": "5 worlds, sequences of 2 of up to 8 parameters", "thorough": "sequences of 3"}
ASSUMPTIONS = ["elements whose stencil is within 1e-4 of the 1% linearity threshold are not judged"]
LONG = P12.LONG
WORLDS = [
    dict(order=("WL", "GCph", "GCsp"), free=("h", "Omm", "wa", "mnu"), disps=[0.01, 0.02]),
    dict(order=("GCph", "WL"), free=("OmDE", "ns", "w0"), disps=[0.03]),
    dict(order=("GCsp", "WL"), free=("Omm", "OmDE", "Omb"), disps=[0.02, 0.005, 0.01], univ="curved"),
    dict(order=("GCph", "GCsp"), free=("Omm", "sigma8"), disps=[0.1, 0.01], bias="constant"),
    dict(order=("WL",), free=("h", "wa"), disps=[0.00625, 0.0125, 0.025], ia=False),
]


def dvars(spec):
    out = list(spec["free"])
    if "WL" in spec["order"] and spec.get("ia", True):
        out += ["aIA", "etaIA"]
    if "GCph" in spec["order"]:
        out.append("bggcph1")
    if "GCsp" in spec["order"]:
        out.append("bggcsp0")
    return out


def cases(tier):
    n = 2 if tier == "quick" else 3
    for i, spec in enumerate(WORLDS):
        for first in dvars(spec):
            yield {"world": i, "first": first, "depth": n}


_W = {}


def build(i, root):
    if i not in _W:
        from seyfert.main import cl_core
        from seyfert.cosmology.cosmology import Cosmology
        from seyfert.utils.workspace import WorkSpace
        spec = WORLDS[i]
        w = P12.world_for(dict(order=spec["order"], univ=spec.get("univ", "flat"), bias=spec.get("bias", "piecewise"),
                               ia=spec.get("ia", True), off=True), root, free=spec["free"], disps=spec["disps"],
                          free_nuis=("aIA", "etaIA"))
        w.write_pmm(root / "run" / "PowerSpectrum")
        ws = WorkSpace(root / "run")
        fc = w.forecast_config()
        fid = Cosmology.fromHDF5(ws.getPowerSpectrumFile("central", 0))
        dens = cl_core.compute_densities(fc.probe_configs, w.z)
        n_iz = {q: dens[LONG[q]].norm_density_iz.copy() for q in w.probes}
        cls = cl_core.compute_cls(fid, fc.phys_pars, dens, fc, w.angular_config())
        _W[i] = (w, ws, fc, fid, dens, n_iz, cls, {})
    return _W[i]


def displaced(w, fc, dvar, step):
    """changes of the model at a step, from first principles"""
    if step == 0:
        return {}
    f = {n: x for n, x in [(n, f) for n, f, _, _ in w.cosmo]}
    if dvar in f:
        v = w.varied(dvar, step)
        return {k: v[k] for k in v if v[k] != f[k]}
    fid = {"aIA": 1.72, "etaIA": -0.41}.get(dvar)
    if fid is None:
        fid = w.bias_values("GCph" if "gcph" in dvar else "GCsp")[dvar]
    d = sorted(w.disps)[abs(step) - 1] * (1 if step > 0 else -1)
    return {dvar: fid + d * fid}


def abscissa(w, dvar, step):
    v = displaced(w, None, dvar, step)
    if dvar in v:
        return v[dvar]
    f = {n: x for n, x, _, _ in w.cosmo}
    if dvar in f:
        return f[dvar]
    return {"aIA": 1.72, "etaIA": -0.41}.get(dvar) or w.bias_values("GCph" if "gcph" in dvar else "GCsp")[dvar]


def run_case(case, ctx):
    from pathlib import Path
    import os
    from seyfert.main import cl_core, cl_derivative_core
    spec = WORLDS[case["world"]]
    root = Path(ctx.scratch_root) / f"w{case['world']}_{os.getpid()}"
    w, ws, fc, fid, dens, n_iz, cls, memo = build(case["world"], root)
    fiducials = {n: p.fiducial for n, p in fc.phys_pars.items()}
    fid_arrays = {k: c.c_lij.copy() for k, c in cls.cl_dict.items()}
    compare0 = P12.reference(w, {}, n_iz, "simpson", memo)
    P12.compare(ctx, w, cls, compare0, 2e-6, "fiducial")
    ac = w.angular_config()
    names = dvars(spec)
    steps = [0] + w.steps()
    done = set()
    for tail in itertools.product(names, repeat=case["depth"] - 1):
        seq = (case["first"],) + tail
        for n, dvar in enumerate(seq):
            last = n == len(seq) - 1
            first_time = seq[:n + 1] not in done
            done.add(seq[:n + 1])
            if not first_time:
                continue       # same history already explored in this process: its effects are still in force
            var = cl_core.compute_cls_variations(dvar, cls, ws, fc.phys_pars, dens, fc, ac, fiducial_cosmology=fid)
            ctx.eq(set(var), set(steps), "steps", f"{seq[:n + 1]}")
            for s in steps:
                P12.compare(ctx, w, var[s], P12.reference(w, displaced(w, fc, dvar, s), n_iz, "simpson", memo), 3e-6,
                            f"{spec} after varying {seq[:n]}: {dvar} step {s}")
            at_rest(ctx, fc, fiducials, dens, n_iz, w, cls, fid_arrays, seq[:n + 1])
            if last and seq[:-1] == (seq[0],) * (len(seq) - 1):
                der = cl_derivative_core.compute_cls_derivatives_wrt(dvar, cls, ws, fc.phys_pars, dens, fc, ac,
                                                                     fiducial_cosmology=fid)
                derivatives(ctx, w, der, dvar, n_iz, memo, seq)
                at_rest(ctx, fc, fiducials, dens, n_iz, w, cls, fid_arrays, seq)
            ctx.state((case["world"], seq[:n + 1]))
        ctx.trace()
        if len(ctx.failures) > 4:
            return
    ctx.note({"world": str(spec), "sequence": seq})


def at_rest(ctx, fc, fiducials, dens, n_iz, w, cls, fid_arrays, seq):
    left = {n: p.current_value for n, p in fc.phys_pars.items() if p.current_value != fiducials[n] or p.fiducial != fiducials[n]}
    ctx.check(not left, "left-displaced", lambda: f"after {seq}: {left}")
    ctx.check(all(np.array_equal(dens[LONG[q]].norm_density_iz, n_iz[q]) for q in w.probes), "density-altered", f"{seq}")
    ctx.check(all(np.array_equal(cls.cl_dict[k].c_lij, a) for k, a in fid_arrays.items()), "fiducial-altered", f"{seq}")


def derivatives(ctx, w, der, dvar, n_iz, memo, seq):
    steps = sorted([0] + w.steps())
    x = [abscissa(w, dvar, s) for s in steps]
    refs = [P12.reference(w, displaced(w, None, dvar, s), n_iz, "simpson", memo) for s in steps]
    ctx.eq(set(der.dcl_dict), {f"{LONG[a]}_{LONG[b]}" for a, b in refs[0]}, "derivative-pairs", f"{seq}")
    for a, b in refs[0]:
        got = der.dcl_dict[f"{LONG[a]}_{LONG[b]}"]
        ctx.check(np.array_equal(got.l_bin_centers, refs[0][a, b][0]), "derivative-ells", f"{seq} {a}x{b}")
        if got.dc_lij.shape != refs[0][a, b][2].shape:
            ctx.fail("derivative-shape", f"{seq} {a}x{b} {got.dc_lij.shape}")
            continue
        for k in np.ndindex(*got.dc_lij.shape):
            y = [r[a, b][2][k] for r in refs]
            if not any(y):
                want, skip = 0.0, False
            elif min(map(abs, y)) == 0:
                continue
            else:
                want, skip = judge(x, y)
            ctx.step()
            if skip:
                ctx.count("borderline_skipped")
                continue
            tol = 3e-5 * max(r[a, b][3][k] for r in refs) / (max(x) - min(x)) * len(w.disps) * 2
            ctx.check(abs(got.dc_lij[k] - want) <= tol + 1e-9 * abs(want), "derivative",
                      lambda: f"{seq} d C_{a}x{b}{k} / d {dvar}: {got.dc_lij[k]} expected {want}")


def judge(x, y):
    order = sorted(range(len(x)), key=lambda i: x[i])
    x, y = [x[i] for i in order], [y[i] for i in order]
    while True:
        s, c = P10.fit(x, y)
        err = max(abs(b - (c + s * a)) / abs(b) for a, b in zip(x, y))
        if abs(err - 0.01) < 1e-4 and len(x) > 3:
            return s, True
        if err < 0.01 or len(x) <= 3:
            return s, False
        x, y = x[1:-1], y[1:-1]

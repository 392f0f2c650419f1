"""Forecast configuration: multipoles of probes and of their pairs, files of the probes, parameters, options of the editor, flags of the tasks."""
import itertools
import json
import os
import re
from decimal import Decimal, getcontext
from pathlib import Path

import numpy as np

from vlib.core import REPO

PROPERTY = "P28"
LEVEL = "model_checking"
RULE = ("all multipole grids of an alphabet (logarithmic, linear, from a file, from a file with the last digit of every value moved) for all probes, all pairs in "
        "both orders; Fisher matrices of forecasts whose grids differ by rounding only; all subsets of probes x places of their files x shot noise files, each "
        "loaded afresh and over every other; all option sets of the editor in several orders, every option missing, unknown or of the wrong kind; all derivative "
        "flags by either name of a pair; a state is (grids), (configuration, previous one) or (options)")
BOUNDS = {"quick": "210 logarithmic and 44 linear grids; 9 grids for each of 3 probes; 22 configurations over 22; 64 option sets x 6 orders; 3 forecasts",
          "thorough": "900 logarithmic and 220 linear grids; 13 grids for each of 3 probes; 31 over 31; 64 x 120 orders; 6 forecasts"}
WORKERS = 8
getcontext().prec = 40
LONG = {"WL": "Lensing", "GCph": "PhotometricGalaxy", "GCsp": "SpectroscopicGalaxy", "V": "Void"}


def init():
    from checks import P20
    P20.init()


def cases(tier):
    q = tier == "quick"
    for i in range(4):
        yield {"kind": "grids", "tier": tier, "part": i, "parts": 4}
    n = 9 if q else 13
    for a in range(n):
        yield {"kind": "pairs", "first": a, "n": n}
    for v in range(3 if q else 6):
        yield {"kind": "fisher", "variant": v}
    yield {"kind": "shipped"}
    for i in range(5):
        yield {"kind": "load", "n": 22 if q else 31, "part": i, "parts": 5}
    for i in range(4):
        yield {"kind": "editor", "orders": 6 if q else 120, "part": i, "parts": 4}
    yield {"kind": "invalid"}
    yield {"kind": "tasks"}


def run_case(case, ctx):
    with ctx.scratch() as d:
        globals()["case_" + case["kind"]](case, ctx, Path(os.path.realpath(d)))


def log_grid(lo, hi, n):
    a, b = Decimal(lo).log10(), Decimal(hi).log10()
    e = [Decimal(10) ** (a + (b - a) * i / n) for i in range(n + 1)]
    return np.array([float((x + y) / 2) for x, y in zip(e, e[1:])]), np.array([float(y - x) for x, y in zip(e, e[1:])])


def lin_grid(lo, hi):
    return np.array([x + 0.5 for x in range(lo, hi)]), np.ones(hi - lo)


def near(a, b, rtol=1e-10):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= rtol * np.abs(b)))


def case_grids(case, ctx, d):
    from seyfert.utils import array_utils as au
    q = case["tier"] == "quick"
    los, his = (2, 10, 20) if q else (2, 5, 10, 20, 30), (21, 100, 750, 1500, 3000) if q else (31, 100, 750, 1500, 3000, 5000)
    ns = (1, 2, 3, 5, 10, 30, 99, 100, 101, 200, 300, 999, 1000, 2000) if q else tuple(range(1, 21)) + (30, 50, 99, 100, 101, 128, 200, 500, 999, 1000)
    todo = [("log", lo, hi, n) for lo in los for hi in his for n in ns]
    todo += [("lin", lo, hi, 0) for lo in ((2, 10, 11, 20) if q else range(2, 22)) for hi in ((21, 22, 30, 100, 750, 1500, 3000, 5000, 12000, 23, 24) if q else (22, 23, 24, 30, 31, 100, 101, 750, 1500, 3000, 5000))]
    for i, (kind, lo, hi, n) in enumerate(todo):
        if i % case["parts"] != case["part"]:
            continue
        ctx.state((kind, lo, hi, n))
        ctx.trace()
        ctx.step()
        c, w = log_grid(lo, hi, n) if kind == "log" else lin_grid(lo, hi)
        for sp in (("log", "logarithmic", "Logarithmic") if kind == "log" else ("lin", "linear", "Linear")):
            at = f"{sp} multipoles from {lo} to {hi}" + (f" in {n} bins" if n else "")
            with ctx.guard("grid", at):
                gc, gw = au.compute_multipoles_arrays(lo, hi, sp, n or None) if sp != "lin" else au.compute_multipoles_arrays(lo, hi, sp)
                ctx.check(near(gc, c) and near(gw, w, 1e-9), "grid", lambda: f"{at}: centres {gc[:3]}.. expected {c[:3]}.., widths {gw[:3]} expected {w[:3]}")
                # the bins cover the range, each starting where the previous one ends
                ctx.check(near(gc[1:] - gw[1:] / 2, gc[:-1] + gw[:-1] / 2) and near([gc[0] - gw[0] / 2, gc[-1] + gw[-1] / 2], [lo, hi]), "grid", f"{at}: bins do not tile the range")
                if kind == "log" and n > 1:
                    ctx.check(near(au.compute_ell_bin_widths_from_log_centers(gc), w, 1e-7 * n), "grid", f"{at}: widths from the centres")
        if kind == "log":
            ctx.raises(Exception, lambda: au.compute_multipoles_arrays(lo, hi, "log"), "grid", f"logarithmic multipoles without their number {lo} {hi}")
        for a, b in ((hi, lo), (lo, lo)):
            for sp in ("log", "lin"):
                ctx.raises(ValueError, lambda: au.compute_multipoles_arrays(a, b, sp, 5), "grid", f"{sp} multipoles from {a} to {b}")
    for sp in ("", "LOG", "cubic", None):
        ctx.raises(Exception, lambda: au.compute_multipoles_arrays(10, 100, sp, 5), "grid", f"spacing {sp}")
    arrays = [np.array(x, float) for x in ([1, 2, 3, 4], [2, 4, 6], [4], [1, 4, 9], [7, 8])]
    for k in range(1, 5):
        for pick in itertools.product(range(5), repeat=k):
            want = sorted(set.intersection(*[set(arrays[i]) for i in pick]))
            ctx.eq(list(au.compute_arrays_intersection1d([arrays[i] for i in pick])), want, "grid", f"values in common of {pick}")


# ---------------------------------------------------------------- multipoles of pairs
def moved(x):
    """the same numbers as another computation would round them"""
    s = np.array([(i * 7 % 3) - 1 for i in range(len(x))])
    return np.where(s > 0, np.nextafter(x, np.inf), np.where(s < 0, np.nextafter(x, -np.inf), x))


def alphabet():
    lg = log_grid(10, 750, 20)
    ext = np.concatenate([lg[0], lin_grid(750, 760)[0]]), np.concatenate([lg[1], lin_grid(750, 760)[1]])
    far = log_grid(3000, 5000, 4)
    sub = lg[0][3:17:2], lg[1][3:17:2]
    wide = lg[0][2:], lg[1][2:] * 1.5
    beside = np.where(np.arange(20) % 3 == 0, lg[0] * (1 + 1e-9), lg[0]), lg[1] * 2
    out = [("log", 10, 750, 20), ("file", *ext), ("file", *wide), ("file", *beside), ("file", moved(ext[0]), ext[1]), ("lin", 740, 765), ("file", moved(moved(sub[0])), sub[1]),
           ("lin", 755, 800), ("file", *far), ("file", moved(lg[0]), moved(lg[1])), ("file", lin_grid(740, 757)[0], lin_grid(740, 757)[1]), ("log", 10, 750, 21),
           ("log", 3000, 5000, 4)]
    return out


def grid_of(g):
    return log_grid(*g[1:]) if g[0] == "log" else lin_grid(*g[1:]) if g[0] == "lin" else (np.asarray(g[1]), np.asarray(g[2]))


def common(g1, g2):
    a, b = grid_of(g1), grid_of(g2)
    gap = np.abs(a[0][:, None] - b[0][None]) / a[0][:, None]
    assert not ((gap > 1e-13 * 50) & (gap < 9e-10)).any()
    i = (gap < 1e-11).any(1)
    return a[0][i], a[1][i]


def put_grid(p, g, data, name):
    p = dict(p)
    if g[0] == "file":
        np.savetxt(data / name, np.array([g[1], g[2]]).T, fmt="%.17g")
        p["ell_external_filename"] = name
    else:
        p.update(ell_external_filename=None, l_min=g[1], l_max=g[2], ell_log_selection=g[0] == "log")
        p.pop("log_l_number", None)
        if g[0] == "log":
            p["log_l_number"] = g[3]
    return p


def case_pairs(case, ctx, d):
    from seyfert.config.forecast_config import ForecastConfig
    from vlib.world import World
    w = World(d / "w").write()
    cfg = json.loads((w.cfg / "forecast.json").read_text())
    gs = alphabet()[:case["n"]]
    for p in ("WL", "GCph", "GCsp"):
        for g in gs:
            if g[0] == "file":
                continue
            lost = {**cfg, "probes": {**cfg["probes"], p: {**put_grid(cfg["probes"][p], g, w.data, f"grid_{p}.txt"), "ell_external_filename": "lost.txt"}}}
            (d / "f.json").write_text(json.dumps(lost))
            ctx.step()
            ctx.raises(Exception, lambda: ForecastConfig(input_file=d / "f.json", input_data_dir=w.data), "multipoles", f"{p} with a file of multipoles that is not there")
    for b, c in itertools.product(range(len(gs)), repeat=2):
        pick = dict(zip(("WL", "GCph", "GCsp"), (gs[case["first"]], gs[b], gs[c])))
        for p in pick:
            cfg["probes"][p] = put_grid(cfg["probes"][p], pick[p], w.data, f"grid_{p}.txt")
        (d / "f.json").write_text(json.dumps(cfg))
        at = f"grids {[g[0:1] + tuple(g[1:]) if g[0] != 'file' else ('file', len(g[1]), float(g[1][0])) for g in pick.values()]} ({case['first']}, {b}, {c})"
        ctx.state((case["first"], b, c))
        ctx.trace()
        ctx.step()
        with ctx.guard("multipoles", at):
            fc = ForecastConfig(input_file=d / "f.json", input_data_dir=w.data)
            for p in pick:
                g = grid_of(pick[p])
                ctx.check(near(fc.probe_configs[LONG[p]].l_bin_centers, g[0]) and near(fc.probe_configs[LONG[p]].l_bin_widths, g[1], 1e-9), "multipoles", f"{at}: multipoles of {p}")
            empty = False
            for p, o in itertools.product(pick, repeat=2):
                want = common(pick[p], pick[o])
                key = f"{LONG[p]}_{LONG[o]}"
                if not len(want[0]):
                    empty = True
                    ctx.raises(Exception, lambda: fc.getMultipoleArraysForProbeComb(key), "multipoles", f"{at}: {key} have no multipole in common")
                    continue
                got = fc.getMultipoleArraysForProbeComb(key)
                ctx.check(near(got[0], want[0]) and near(got[1], want[1], 1e-9), "multipoles",
                          lambda: f"{at}: {len(got[0])} multipoles in common of {key} expected {len(want[0])}")
            # what the pairs keep can be found in the multipoles of the single probes and in each other
            try:
                fc.checkProbesMultipoles()
                ctx.check(not empty, "multipoles", f"{at}: pairs of probes with no multipole in common are accepted")
            except ValueError:
                ctx.check(empty, "multipoles", f"{at}: refused, though all pairs of probes have multipoles in common")


def forecast(root, ells):
    """all the matrices of a small forecast run in one go"""
    from checks import P20
    from seyfert.fisher.fisher_matrix import FisherMatrix
    from seyfert.main import seyfert_core
    from seyfert.utils import filesystem_utils as fsu
    from vlib.core import HarnessError
    from vlib.world import World
    w = World(root, nz=17, free=("Omm",), free_bias=(), free_nuis=("aIA",), disps=(0.01,), nbins={"WL": 1, "GCph": 1, "GCsp": 1}, ells=ells).write()
    w.write_pmm(root / "PMM")
    lists = root / "fishers"
    lists.mkdir()
    (lists / "selected_datavectors.txt").write_text(P20.LISTS)
    (lists / "a_posteriori_fisher_combs.txt").write_text("[WL] + [GCsp(Pk)]\n")
    if not hasattr(fsu, "fisher_aux_files_dir"):
        raise HarnessError("no fisher_aux_files_dir to put the lists of data vectors")
    fsu.fisher_aux_files_dir = lambda: lists
    run = root / "run"
    run.mkdir()
    (root / "log.txt").write_text("log\n")
    with P20.quiet():
        seyfert_core.do_forecast(dict(workdir=run, powerspectrum_dir=root / "PMM", forecast_config=w.cfg / "forecast.json", angular_config=w.cfg / "angular.json",
                                      powerspectrum_config=w.cfg / "pmm.json", derivative_config=w.cfg / "derivative.json", fisher_config=w.cfg / "fisher.json",
                                      input_data_dir=w.data), root / "log.txt")
    out = {}
    for f in sorted((run / "base_fishers").glob("*.hdf5")):
        m = FisherMatrix()
        m.loadFromFile(f)
        out[m.name] = m.matrix.sort_index(axis=0).sort_index(axis=1)
    return out


def case_fisher(case, ctx, d):
    """a forecast whose grids differ by rounding only has the Fisher matrices of one whose grids are the same numbers"""
    lg = log_grid(10, 750, 8)
    low = [(float(a), float(b)) for a, b in zip(*lg)]
    up = [(float(a), float(b)) for a, b in zip(moved(lg[0]), lg[1])]
    tail = [(800.5, 1.0), (801.5, 1.0)]
    exact = {"WL": low + tail, "GCph": low, "GCsp": low[:5]}
    rounded = [{"WL": up + tail, "GCph": low, "GCsp": low[:5]}, {"WL": low + tail, "GCph": up, "GCsp": low[:5]}, {"WL": low + tail, "GCph": low, "GCsp": up[:5]},
               {"WL": up + tail, "GCph": low, "GCsp": up[:5]}, {"WL": low + tail, "GCph": up, "GCsp": up[:5]}, {"WL": up + tail, "GCph": up, "GCsp": low[:5]}][case["variant"]]
    ctx.trace(2)
    ctx.step(2)
    ctx.state(case["variant"])
    with ctx.guard("rounding", f"forecasts {case['variant']}"):
        a, b = forecast(d / "exact", exact), forecast(d / "rounded", rounded)
        ctx.eq(sorted(a), sorted(b), "rounding", "matrices")
        ctx.check(len(a) > 6, "rounding", f"matrices {sorted(a)}")
        for n in a:
            ctx.check(a[n].shape == b[n].shape and list(a[n]) == list(b[n]) and bool(np.allclose(a[n], b[n], rtol=1e-6, atol=1e-9 * np.abs(a[n].to_numpy()).max())), "rounding",
                      lambda: f"grids {case['variant']}: matrix {n} {b[n].to_numpy().ravel()[:3]} expected {a[n].to_numpy().ravel()[:3]}")


def case_shipped(case, ctx, d):
    """the multipole files shipped with the program go with the grids the editor gives the other probes"""
    from seyfert.config.forecast_config import ForecastConfig, ForecastConfigEditor
    data = REPO / "seyfert" / "data" / "input_data"
    for sc, lmax, n in (("optimistic", 3000, 100), ("pessimistic", 750, 100)):
        ctx.state(sc)
        ctx.trace()
        ctx.step()
        with ctx.guard("shipped", sc):
            ed = ForecastConfigEditor({"scenario": sc, "n_sp_bins": 4, "gcph_minus_gcsp": False, "shot_noise_sp_reduced": False, "gcph_only_bins_in_spectro_range": False})
            ed.updateData()
            ed.writeJSON(d, add_datetime=False)
            fc = ForecastConfig(input_file=d / f"{sc}_4_sp_bins.json", input_data_dir=data)
            want = log_grid(10, lmax, n)
            for p, o in itertools.permutations(("Lensing", "PhotometricGalaxy", "SpectroscopicGalaxy"), 2):
                got = fc.getMultipoleArraysForProbeComb(f"{p}_{o}")
                ctx.check(near(got[0], want[0]) and near(got[1], want[1], 1e-9), "shipped", lambda: f"{sc}: {p} and {o} have {len(got[0])} multipoles in common, expected {n}")


# ---------------------------------------------------------------- loading
def configurations(n):
    out = []
    subsets = [s for k in (3, 2, 1) for s in itertools.combinations(("WL", "GCph", "GCsp"), k)]
    for i, s in enumerate(subsets):
        out.append({"probes": s, "noise": i % 2 == 0, "f_sky": 0.1 * (i + 1), "flat": i % 3 != 1, "disps": [0.01] if i % 2 else [0.01, 0.03]})
        out.append({"probes": s, "noise": i % 2 == 1, "f_sky": 0.36, "flat": True, "disps": [0.02], "place": i % 7, "free": i % 2 == 0})
    out.append({"probes": ("WL", "GCph", "GCsp", "V"), "noise": False, "f_sky": 0.3, "flat": True, "disps": [0.01]})
    for i, (s, pl) in enumerate(itertools.product(subsets, range(7))):
        out.append({"probes": s[::-1], "noise": bool(i % 3), "f_sky": 0.2, "flat": bool(i % 2), "disps": [0.01, 0.02], "place": pl, "free": bool(i % 3)})
    return out[:n]


def case_load(case, ctx, d):
    from seyfert.config.forecast_config import ForecastConfig
    from vlib.world import World
    cfgs = configurations(case["n"])
    files, datas, wants = [], [], []
    for i, c in enumerate(cfgs):
        probes = c["probes"]
        # a void catalogue is read from the files of the photometric one
        w = World(d / f"w{i}", probes=[p for p in ("WL", "GCph", "GCsp") if p in probes or p == "GCph"], f_sky=c["f_sky"], flat=c["flat"], disps=c["disps"],
                  extra_survey={"shot_noise_file": "noise.h5" if c["noise"] else None}, free_bias=("GCph", "GCsp") if c.get("free", True) else ("GCsp",)).write()
        cfg = json.loads((w.cfg / "forecast.json").read_text())
        order = list(probes) + [p for p in cfg["probes"] if p not in probes]
        cfg["probes"] = {p: cfg["probes"][p] for p in order}
        for p in order:
            cfg["probes"][p]["presence_flag"] = p in probes
        if "V" in probes:
            v = cfg["probes"]["V"]
            v.update(density_file="dndz_GCph.h5", ell_external_filename="ells_GCph.txt", bias_file="bias_GCph.h5", bias_derivative_method="SteM", marginalize_bias_flag=False)
        (w.data / "shot_noise").mkdir()
        (w.data / "shot_noise" / "noise.h5").write_text("")
        place = c.get("place", 0)        # bits: own folder by short name, by long name; the plain file always there but for place 6
        for p in probes:
            for f in (f"dndz_{p}.h5", f"bias_{p}.h5"):
                src = w.data / f
                if not src.exists():
                    continue
                for bit, sub in ((1, p), (2, LONG[p])):
                    if place & bit:
                        (w.data / sub).mkdir(exist_ok=True)
                        (w.data / sub / f).write_bytes(src.read_bytes())
        (w.cfg / "forecast.json").write_text(json.dumps(cfg))
        files.append(w.cfg / "forecast.json")
        datas.append(w.data)
        wants.append((c, w, cfg))

    def look(fc, i, at, params=True):
        c, w, cfg = wants[i]
        longs = [LONG[p] for p in c["probes"]]
        ctx.eq(list(fc.present_probes), longs, "load", f"{at}: probes")
        ctx.check([tuple(x) for x in fc.probes_combinations] == list(itertools.combinations_with_replacement(longs, 2)), "load", f"{at}: pairs of probes {fc.probes_combinations}")
        ctx.check(fc.survey_f_sky == c["f_sky"] and fc.is_universe_flat == c["flat"], "load", f"{at}: f_sky {fc.survey_f_sky}, flat {fc.is_universe_flat}")
        want = w.data / "shot_noise" / "noise.h5" if c["noise"] else None
        ctx.check(fc.shot_noise_file == want, "load", f"{at}: shot noise file {fc.shot_noise_file} expected {want}")
        for p in c["probes"]:
            pc = fc[LONG[p]]
            place = c.get("place", 0)
            src = "GCph" if p == "V" else p
            folder = w.data / p if place & 1 and p != "V" else w.data / LONG[p] if place & 2 and p != "V" else w.data
            ctx.check(Path(pc.density_init_file) == folder / f"dndz_{src}.h5", "files", f"{at}: density of {p} {pc.density_init_file}")
            ctx.check(p == "WL" or Path(pc.bias_init_file) == folder / f"bias_{src}.h5", "files", f"{at}: bias of {p} {pc.bias_init_file}")
            ctx.eq(pc.specific_settings, cfg["probes"][p]["specific_settings"], "load", f"{at}: settings of {p}")
            ctx.check(near(pc.l_bin_centers, np.array(w.ells[src], float)[:, 0]) and near(pc.l_bin_widths, np.array(w.ells[src], float)[:, 1]), "load", f"{at}: multipoles of {p}")
        if not params:
            return
        want = {n: ("cosmo", f, n in w.free) for n, f, _, _ in w.cosmo}
        for p in c["probes"]:
            for e in cfg["probes"][p]["extra_nuisance_parameters"]:
                want[e["name"]] = ("nuis", e["fiducial"], e["is_free_parameter"])
            if p in ("GCph", "GCsp", "V"):
                for n, val in w.bias_values("GCph" if p == "V" else p).items():
                    want[n] = ("nuis", val, cfg["probes"][p]["marginalize_bias_flag"])
        got = {n: ("cosmo" if n in fc.phys_pars.cosmological_parameters else "nuis", x.fiducial, x.is_free_parameter) for n, x in fc.phys_pars.items()}
        if "V" in c["probes"]:
            got = {n: x for n, x in got.items() if n not in want or not n.startswith("bggcph")}
            want = {n: x for n, x in want.items() if not n.startswith("bggcph")}
        ctx.eq(got, want, "parameters", f"{at}: parameters")
        ctx.check(fc.phys_pars.is_universe_flat == c["flat"] and sorted(fc.phys_pars.stem_dict) == sorted(s * k for k in range(1, len(c["disps"]) + 1) for s in (1, -1)), "parameters",
                  f"{at}: flatness and displacements {fc.phys_pars.stem_dict}")
        ctx.eq(dict(fc.synthetic_opts), cfg["synthetic_opts"], "load", f"{at}: options")
    for i in range(len(cfgs)):
        if i % case["parts"] != case["part"]:
            continue
        ctx.trace()
        ctx.step()
        ctx.state((i,))
        with ctx.guard("load", f"configuration {i}"):
            fc = ForecastConfig(input_file=files[i], input_data_dir=str(datas[i]) if i % 2 else datas[i], load_phys_params=bool(i % 3))
            if not i % 3:
                fc.loadPhysicalParametersFromJSONConfig()
            look(fc, i, f"configuration {i} {cfgs[i]}")
            out = d / f"again{i}.json"
            fc.writeToJSON(out)
            again = ForecastConfig(input_file=out, input_data_dir=datas[i], load_phys_params=True)
            look(again, i, f"configuration {i} written and read")
            ctx.check(again == fc, "load", f"configuration {i} written and read differs")
            for j in range(len(cfgs)):
                ctx.trace()
                ctx.step()
                ctx.state((i, j))
                fc = ForecastConfig(input_file=files[j], input_data_dir=datas[j], load_phys_params=bool(j % 2))
                fc.loadConfiguration(files[i], datas[i], load_phys_params=True)
                look(fc, i, f"configuration {i} {cfgs[i]} loaded over {j} {cfgs[j]}")
    if case["part"] == 0:
        bad = json.loads(files[0].read_text())
        bad["survey"]["shot_noise_file"] = "none_such.h5"
        (d / "bad.json").write_text(json.dumps(bad))
        ctx.raises(FileNotFoundError, lambda: ForecastConfig(input_file=d / "bad.json", input_data_dir=datas[0]), "load", "shot noise file that is not there")


# ---------------------------------------------------------------- the editor
OPTS = ("scenario", "n_sp_bins", "gcph_minus_gcsp", "shot_noise_sp_reduced", "gcph_only_bins_in_spectro_range")


def option_sets():
    for v in itertools.product(("optimistic", "pessimistic"), (4, 12, 24, 40), (False, True), (False, True), (False, True)):
        yield dict(zip(OPTS, v))


def expected_probes(base, o):
    p = json.loads(json.dumps(base["probes"]))
    lmax = {"optimistic": 3000, "pessimistic": 750}[o["scenario"]]
    for x in ("GCph", "GCsp"):
        p[x].update(l_min=10, l_max=lmax, log_l_number=100, ell_log_selection=True)
    p["WL"]["ell_external_filename"] = {"optimistic": "wl_optm_ells_10_3000_log_nell_100_and_3000_5000_lin.txt",
                                        "pessimistic": "wl_pess_ells_10_750_log_nell_100_and_750_1500_lin.txt"}[o["scenario"]]
    if o["gcph_minus_gcsp"]:
        p["GCph"]["density_file"] = "gcph_dndz_redbook_gcsp_subtracted.h5"
    elif o["gcph_only_bins_in_spectro_range"]:
        p["GCph"].update(density_file="gcph_dndz_redbook_only_bins_in_spectro_range.h5", bias_file="gcph_bias_piecewise_only_bins_in_spectro_range.h5")
    else:
        p["GCph"].update(density_file="gcph_dndz_redbook.h5", bias_file="gcph_bias_piecewise.h5")
    p["GCsp"].update(density_file=f"gcsp_dndz_{o['n_sp_bins']}_bins.h5", bias_file=f"gcsp_bias_piecewise_{o['n_sp_bins']}_bins.h5")
    return p


def case_editor(case, ctx, d):
    from seyfert.config.forecast_config import ForecastConfig, ForecastConfigEditor
    basic = REPO / "seyfert" / "data" / "config_files" / "basic_forecast_config.json"
    before = basic.read_bytes()
    base = json.loads(before)
    data = REPO / "seyfert" / "data" / "input_data"
    orders = list(itertools.permutations(OPTS))[::120 // case["orders"]]
    ids, fnames, previous = {}, {}, None
    for i, o in enumerate(option_sets()):
        mine = i % case["parts"] == case["part"]
        for order in orders if mine else orders[:1]:
            given = {k: o[k] for k in order}
            ctx.trace()
            ctx.step()
            at = f"editor with {given}"
            ctx.state((sorted(o.items(), key=str), order))
            with ctx.guard("editor", at):
                ed = ForecastConfigEditor(dict(given))
                if o["gcph_minus_gcsp"] and o["gcph_only_bins_in_spectro_range"]:
                    ctx.raises(NotImplementedError, ed.updateData, "editor", at)
                    continue
                ed.updateData()
                if order != orders[0]:
                    ed.updateData()                       # saying it twice says nothing new
                if previous is not None:
                    ForecastConfigEditor(dict(previous)).updateData()     # another editor is no business of this one
                out = d / f"{i}_{orders.index(order)}"
                out.mkdir(exist_ok=True)
                ed.writeJSON(out, add_datetime=False)
                f, = out.iterdir()
                got = json.loads(f.read_text())
                ctx.eq(got["probes"], expected_probes(base, o), "editor", f"{at}: probes")
                ctx.eq({k: got["synthetic_opts"].get(k) for k in OPTS}, o, "editor", f"{at}: options written")
                rest = {k: v for k, v in got.items() if k not in ("probes", "synthetic_opts", "metadata")}
                ctx.eq(rest, {k: v for k, v in base.items() if k not in ("probes", "synthetic_opts", "metadata")}, "editor", f"{at}: the rest")
                if mine:
                    fc = ForecastConfig(input_file=f, input_data_dir=data)
                    ctx.check((fc.scenario, fc.n_sp_bins, fc.shot_noise_sp_reduced) == (o["scenario"], o["n_sp_bins"], o["shot_noise_sp_reduced"]), "editor", f"{at}: read back")
                    ctx.check(fc["PhotometricGalaxy"].density_init_file.name == got["probes"]["GCph"]["density_file"] and
                              fc["SpectroscopicGalaxy"].bias_init_file.name == got["probes"]["GCsp"]["bias_file"], "editor", f"{at}: files read back")
                else:
                    from seyfert.file_io.json_io import JSONForecastConfig
                    fc = JSONForecastConfig(file=f)
                ctx.check(f.name.startswith(f"{o['scenario']}_{o['n_sp_bins']}_sp_bins") and f.name.endswith(".json"), "editor", f"{at}: {f.name}")
                parts = {k for k in OPTS[2:] if k in f.name}
                ctx.check(parts == {k for k in OPTS[2:] if o[k]}, "editor", f"{at}: flags in the name {f.name}")
                if order == orders[0]:
                    k = tuple(o.values())
                    ids.setdefault(fc.getConfigID(), set()).add(k)
                    fnames.setdefault(f.name, set()).add(k)
                    dated = ed.createFileName()
                    ctx.check(re.fullmatch(re.escape(f.stem) + r"_\d{4}-\d\d-\d\dT\d\d-\d\d-\d\d\.json", dated) is not None, "editor", f"{at}: dated name {dated}")
                    cid = fc.getConfigID()
                    ctx.check(f"scenario_{o['scenario']}" in cid and f"n_sp_bins_{o['n_sp_bins']}" in cid and
                              all((x in cid) == o[x] for x in OPTS[2:]), "editor", f"{at}: identifier {cid}")
        previous = o if not (o["gcph_minus_gcsp"] and o["gcph_only_bins_in_spectro_range"]) else previous
    ctx.check(all(len(v) == 1 for v in ids.values()) and all(len(v) == 1 for v in fnames.values()), "editor",
              lambda: f"different options, same name: {[x for x in (*ids.items(), *fnames.items()) if len(x[1]) > 1][:2]}")
    ctx.check(basic.read_bytes() == before, "editor", "the basic configuration has changed")


def case_invalid(case, ctx, d):
    from seyfert.config.forecast_config import ForecastConfigEditor
    ok = dict(zip(OPTS, ("optimistic", 4, False, False, False)))
    bad = [{k: v for k, v in ok.items() if k not in gone} for n in range(1, 6) for gone in itertools.combinations(OPTS, n)]
    bad += [{**ok, extra: False} for extra in ("n_bins", "Scenario", "gcph", "shot_noise", "")]
    bad += [{**{k: v for k, v in ok.items() if k != gone}, "other": 1} for gone in OPTS]
    bad += [{**ok, "scenario": v} for v in ("Optimistic", "optm", "", None, "optimistic ", 4, "realistic")]
    bad += [{**ok, "n_sp_bins": v} for v in (*(n for n in range(-4, 101) if n not in (4, 12, 24, 40)), "4", None, 4.5)]
    bad += [{**ok, k: v} for k in OPTS[2:] for v in (0, 1, "True", "False", None, "", 1.0)]
    for o in bad:
        ctx.state(sorted(o.items(), key=str))
        ctx.trace()
        ctx.step()
        ctx.raises(Exception, lambda: ForecastConfigEditor(dict(o)), "invalid", f"editor with {o}")


def case_tasks(case, ctx, d):
    from seyfert.config import main_config as mc
    classes = {"PowerSpectrum": mc.PowerSpectrumConfig, "Angular": mc.AngularConfig, "Derivative": mc.DerivativeConfig, "Fisher": mc.FisherConfig}
    f = d / "c.json"
    for t, c in classes.items():
        f.write_text(json.dumps({"a": 1, "cl_derivatives": {}, "b": {"c": [1, 2]}}))
        for p in (f, str(f)):
            with ctx.guard("tasks", t):
                x = mc.config_for_task(t, p)
                ctx.check(type(x) is c and x["a"] == 1 and x["b"] == {"c": [1, 2]}, "tasks", f"configuration of {t}: {type(x)} {x}")
                x.writeToJSON(d / "out.json")
                y = mc.config_for_task(t, d / "out.json")
                ctx.check(y["a"] == 1 and y["b"] == {"c": [1, 2]}, "tasks", f"{t} written and read: {y}")
    for t in ("", "fisher", "Power", "Main", None, "FisherConfig"):
        ctx.raises(ValueError, lambda: mc.config_for_task(t, f), "tasks", f"task {t}")
    longs = ["Lensing", "PhotometricGalaxy", "SpectroscopicGalaxy"]
    pairs = list(itertools.combinations(longs, 2))
    for stored in itertools.product((None, "straight", "swapped", "both"), repeat=3):
        for flags in itertools.product((False, True), repeat=3):
            dct = {}
            for (a, b), how, flag in zip(pairs, stored, flags):
                if how in ("straight", "both"):
                    dct[f"{a}_{b}"] = flag
                if how in ("swapped", "both"):
                    dct[f"{b}_{a}"] = (not flag) if how == "both" else flag
            f.write_text(json.dumps({"cl_derivatives": dct, "shot_noise_phsp_xc_factor": 0.0, "fisher_formula": "second_order"}))
            ctx.state((stored, flags))
            ctx.trace()
            ctx.step()
            cfg = mc.FisherConfig(json_input=f)
            for (a, b), how, flag in zip(pairs, stored, flags):
                for x, y, want in ((a, b, flag), (b, a, (not flag) if how == "both" else flag)):
                    if how is None:
                        ctx.raises(KeyError, lambda: cfg.getXCDerivativeFlag(f"{x}_{y}"), "tasks", f"flag of {x}_{y} among {sorted(dct)}")
                    else:
                        with ctx.guard("tasks", dct):
                            ctx.check(cfg.getXCDerivativeFlag(f"{x}_{y}") is want, "tasks", f"flag of {x}_{y} in {dct}")

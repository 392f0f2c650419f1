"""Triangular contour plots, correlation plots and the TeX names written on them."""
import itertools
import json
import math

import numpy as np
import pandas as pd

PROPERTY = "P29"
LEVEL = "model_checking"
RULE = ("every contour plot of analyses of 1 to 4 matrices x ordered choices of parameters x orders of the matrices x plotted subsets x plot settings x "
        "ranges, and every sequence of operations on one plotter (parameters, settings, ranges, matrices, orders), drawn after every operation: what the axes "
        "hold against the covariances computed here from the matrices; correlation plots and ranges files; TeX names of all parameters and matrices pairwise; "
        "a state is (analysis, settings of the plotter)")
BOUNDS = {"quick": "ordered choices of 1-3 of 4 parameters x 4 sets of matrices; 5 to 10 parameters in 3 orders; 6 orders x 16 plotted subsets x 2 choices; 10 settings x 3 ranges x 3 sets; 11 operations, depth 2",
          "thorough": "as quick, choices of all 4 parameters too; 11 operations, depth 3"}
WORKERS = 8

PARS = ("Omm", "h", "w0", "wa")
FID = {"Omm": 0.32, "h": 0.67, "w0": -1.0, "wa": 0.0}
NUIS = ("bgph0", "bgph1")
NAMES = ("[WL]", "[GCph]", "[WL+GCph+XC(WL,GCph)]", "[WL+GCph+XC(WL,GCph)] + [GCsp(Pk)]")
TEX_PAR = {"Omm": r"\Omega_m", "h": "h", "w0": "w_0", "wa": "w_a"}
MORE = ("sigma8", "ns", "Omb", "gamma", "OmDE", "mnu")
MORE_FID = (0.816, 0.96, 0.05, 0.55, 0.68, 0.06)
MORE_SCALE = (50.0, 60.0, 200.0, 20.0, 40.0, 5.0)
MORE_TEX = (r"\sigma_8", "n_s", r"\Omega_b", r"\gamma", r"\Omega_{DE}", r"M_\nu[\mathrm{eV}]")
TEX_F = {"[WL]": r"[\mathrm{WL}]", "[GCph]": r"[\mathrm{GC_{ph}}]",
         "[WL+GCph+XC(WL,GCph)]": r"[\mathrm{WL}+\mathrm{GC_{ph}}+\mathrm{XC}(\mathrm{WL},\mathrm{GC_{ph}})]",
         "[WL+GCph+XC(WL,GCph)] + [GCsp(Pk)]": r"[\mathrm{WL}+\mathrm{GC_{ph}}+\mathrm{XC}(\mathrm{WL},\mathrm{GC_{ph}})] + [\mathrm{GC_{sp}}(P_k)]"}
SETS = ((0,), (0, 1), (2, 0, 1), (3, 1, 0, 2))
SCALE = {"Omm": 90.0, "h": 40.0, "w0": 9.0, "wa": 3.0, "bgph0": 20.0, "bgph1": 25.0}


def init():
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    plt.rcParams["figure.max_open_warning"] = 0


def raw(name, nuisance):
    """matrix of a name: positive definite, correlated, of realistic relative sizes"""
    s = 1 + NAMES.index(name)
    ps = PARS + (NUIS if nuisance else ())
    n = len(ps)
    a = np.array([[math.sin(1.7 * s + 2.3 * i * j + 0.9 * i + 1.3 * j) for i in range(n)] for j in range(n)])
    m = (a @ a.T + np.eye(n) * (0.4 + 0.2 * s)) * (1 + 0.7 * s)
    d = np.diag([SCALE[p] for p in ps])
    return pd.DataFrame(d @ m @ d, index=list(ps), columns=list(ps))


def covariance(m, marginalize):
    """covariance of the cosmological parameters"""
    m = m if marginalize else m.loc[list(PARS), list(PARS)]
    c = np.linalg.inv(m.to_numpy())[:len(PARS), :len(PARS)]
    return pd.DataFrame(c, index=list(PARS), columns=list(PARS))


def analysis(names, nuisance=False, marginalize=True, base=False):
    from seyfert.fisher.fisher_analysis import FisherAnalysis
    from seyfert.fisher.fisher_matrix import FisherMatrix
    fs = [FisherMatrix(matrix_df=raw(n, nuisance), name=n, cosmological_parameters=set(PARS), nuisance_parameters=set(NUIS) if nuisance else set()) for n in names]
    an = FisherAnalysis(analysis_name="ana", fisher_matrices=fs, cosmo_pars_fiducial=dict(FID), marginalize_nuisance=marginalize)
    if base:
        an.base_fishers = {f.name: f for f in fs}
    an.prepareFisherMatrices()
    an.evaluateMarginalizedErrors()
    return an


def q(cl):
    """half width, in units of sigma, of the central interval of probability cl (bisection on the error function)"""
    lo, hi = 0.0, 10.0
    for _ in range(200):
        mid = (lo + hi) / 2
        lo, hi = (mid, hi) if math.erf(mid / math.sqrt(2)) < cl else (lo, mid)
    return (lo + hi) / 2


class Want:
    """what the plotter is known to be set to"""

    def __init__(self, covs, order, pars):
        self.covs = covs                    # name -> covariance
        self.order = list(order)            # order of the analysis
        self.pars = list(pars)
        self.gauss = {0.68: 0.25, 0.95: 0.15}
        self.ell = {0.68: 0.40, 0.95: 0.20}
        self.cmap = "rainbow"
        self.nticks = 3
        self.title = "ana"
        self.ranges = None

    def computed(self):
        k = q(0.99)
        out = {}
        for p in self.pars:
            s = [math.sqrt(self.covs[n].loc[p, p]) for n in self.order]
            out[p] = (FID[p] - k * sum(s) / len(s), FID[p] + k * sum(s) / len(s))
        return out

    def color(self, name):
        import matplotlib
        n = len(self.order)
        x = self.order.index(name) / (n - 1) if n > 1 else 0.0
        return np.array(matplotlib.colormaps[self.cmap](x))

    def key(self):
        return (tuple(self.covs), tuple(self.order), tuple(self.pars), tuple(self.gauss), tuple(self.ell), self.cmap, self.nticks, str(self.ranges))


def close(a, b, tol=1e-7):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * np.maximum(1e-12, np.maximum(np.abs(a), np.abs(b)))))


def ticked(got, ends, n):
    return len(got) == n and bool(np.all(np.abs(np.asarray(got, float) - np.linspace(*ends, n)) <= 1e-9 * (ends[1] - ends[0])))


def verify(ctx, fig, axes, w, order, legend, tag):
    """every axis of the figure shows what it has to"""
    from matplotlib.collections import PolyCollection
    from matplotlib.colors import to_rgba
    from matplotlib.patches import Ellipse
    drawn = list(w.order if order is None else order)
    n = len(w.pars)
    if not ctx.check(np.shape(axes) == (n, n), "shape", f"{tag}: axes of shape {np.shape(axes)} for {n} parameters"):
        return
    same = lambda c, d: bool(np.allclose(to_rgba(c), d, atol=1e-9))
    for i in range(n):
        for j in range(n):
            ax = axes[i, j]
            x, y = w.pars[j], w.pars[i]
            at = f"{tag} [{i},{j}]"
            if i < j:
                ctx.check(not ax.axison and not ax.patches and not ax.lines and not [a for a in ax.get_children() if isinstance(a, Ellipse)], "upper", at)
                continue
            ctx.check(ax.axison, "off", at)
            ctx.check(close(ax.get_xlim(), w.ranges[x]), "xlim", lambda: f"{at}: {ax.get_xlim()} for {w.ranges[x]}")
            ctx.check(ticked(ax.get_xticks(), w.ranges[x], w.nticks), "xticks", lambda: f"{at}: {ax.get_xticks()}")
            if i == n - 1:
                ctx.check(ax.get_xlabel() == f"${TEX_PAR[x]}$", "xlabel", lambda: f"{at}: {ax.get_xlabel()}")
            else:
                ctx.check(ax.get_xlabel() in ("", f"${TEX_PAR[x]}$"), "xlabel", lambda: f"{at}: {ax.get_xlabel()}")
            ells = [a for a in ax.get_children() if isinstance(a, Ellipse)]
            fills = [a for a in ax.get_children() if isinstance(a, PolyCollection)]
            if i > j:
                ctx.check(close(ax.get_ylim(), w.ranges[y]), "ylim", lambda: f"{at}: {ax.get_ylim()} for {w.ranges[y]}")
                ctx.check(ticked(ax.get_yticks(), w.ranges[y], w.nticks), "yticks", lambda: f"{at}: {ax.get_yticks()}")
                if j == 0:
                    ctx.check(ax.get_ylabel() == f"${TEX_PAR[y]}$", "ylabel", lambda: f"{at}: {ax.get_ylabel()}")
                ctx.check(not ax.lines and not fills, "stray", at)
                left = list(ells)
                for name in drawn:
                    c = w.covs[name].loc[[x, y], [x, y]].to_numpy()
                    for cl, alpha in w.ell.items():
                        for filled in (True, False):
                            hit = []
                            for e in left:
                                t = np.deg2rad(e.angle)
                                r = np.array([[np.cos(t), -np.sin(t)], [np.sin(t), np.cos(t)]])
                                got = r @ np.diag([(e.width / 2) ** 2, (e.height / 2) ** 2]) @ r.T
                                scale = q(cl) ** 2 * np.sqrt(np.outer(np.diag(c), np.diag(c)))
                                # tolerance: that of the smaller axis computed as a difference
                                ok = np.all(np.abs(got - q(cl) ** 2 * c) <= 1e-6 * scale + 1e-12 * q(cl) ** 2 * np.trace(c))
                                ok = ok and close(e.center, [FID[x], FID[y]]) and e.fill == filled
                                ok = ok and (same(e.get_facecolor(), [*w.color(name)[:3], alpha]) if filled else same(e.get_edgecolor(), w.color(name)))
                                if ok:
                                    hit.append(e)
                            ctx.eval()
                            if ctx.check(hit, "ellipse", f"{at}: no {'filled' if filled else 'contour'} ellipse of {name} at {cl}"):
                                left.remove(hit[0])
                ctx.check(not left, "extra-ellipse", lambda: f"{at}: {left}")
            else:
                ctx.check(not ells, "stray", at)
                lo, hi = w.ranges[x]
                lines = list(ax.lines)
                for name in drawn:
                    s = math.sqrt(w.covs[name].loc[x, x])
                    mine = []
                    for ln in lines:
                        xs, ys = np.asarray(ln.get_xdata()), np.asarray(ln.get_ydata())
                        if same(ln.get_color(), w.color(name)) and len(xs) >= 50 and close([xs.min(), xs.max()], [lo, hi]) \
                                and np.allclose(ys, np.exp(-0.5 * ((xs - FID[x]) / s) ** 2), atol=1e-9):
                            mine.append(ln)
                    ctx.eval()
                    if ctx.check(mine, "curve", f"{at}: no curve of {name}"):
                        lines = [ln for ln in lines if ln not in mine]
                    step = (hi - lo) / 100
                    for cl, alpha in w.gauss.items():
                        a, b = max(lo, FID[x] - q(cl) * s), min(hi, FID[x] + q(cl) * s)
                        hit = []
                        for p in fills:
                            v = np.concatenate([z.vertices for z in p.get_paths()]) if p.get_paths() else np.zeros((0, 2))
                            if len(v) and same(p.get_facecolor()[0], [*w.color(name)[:3], alpha]) and a - 1e-9 * step <= v[:, 0].min() <= a + step \
                                    and b - step <= v[:, 0].max() <= b + 1e-9 * step:
                                hit.append(p)
                        if ctx.check(hit, "fill", f"{at}: no band of {name} at {cl} over [{a}, {b}]"):
                            fills.remove(hit[0])
                ctx.check(not lines and not fills, "extra-curve", lambda: f"{at}: {lines} {fills}")
    ctx.step()
    if legend:
        ctx.check(len(fig.legends) == 1, "legend", f"{tag}: {len(fig.legends)} legends")
        for lg in fig.legends:
            ctx.check([t.get_text() for t in lg.get_texts()] == [f"${TEX_F.get(n, n)}$" for n in drawn], "legend-text", lambda: f"{tag}: {[t.get_text() for t in lg.get_texts()]}")
            ctx.check(all(same(h.get_facecolor(), w.color(n)) for h, n in zip(lg.legend_handles, drawn)) and len(lg.legend_handles) == len(drawn), "legend-color", f"{tag}")
            ctx.check(lg.get_title().get_text() == w.title, "legend-title", lambda: f"{tag}: {lg.get_title().get_text()}")
    else:
        ctx.check(not fig.legends, "legend", f"{tag}: unwanted legend")


def choices(tier):
    out = []
    for k in range(1, 4):
        out += [list(c) for c in itertools.permutations(PARS, k)]
    out += [list(PARS)] if tier != "thorough" else [list(c) for c in itertools.permutations(PARS)]
    return out + ["all"]


CONFIGS = ("default", "file", "dict-levels", "dict-cmap", "dict-axes", "file+dict", "dict-many", "ticks-6", "ticks-7", "ticks-11")


def settings(which, d):
    """arguments of setPlotConfig, and what they set"""
    from seyfert.utils import filesystem_utils as fsu
    base = json.loads((fsu.config_files_dir() / "results_config.json").read_text())
    mine = json.loads(json.dumps(base))
    g = mine["plot_settings"]["graphics"]
    g["cl_alpha_dict"] = {"gauss": {"0.5": 0.6}, "ellipse": {"0.3": 0.9, "0.8": 0.5, "0.99": 0.1}}
    g["color_map"] = "viridis"
    mine["plot_settings"]["axes"]["ticks"]["number"] = 5
    f = d / "settings.json"
    f.write_text(json.dumps(mine))
    gr = json.loads(json.dumps(base["plot_settings"]["graphics"]))
    ax = json.loads(json.dumps(base["plot_settings"]["axes"]))
    set_file = dict(gauss={0.5: 0.6}, ell={0.3: 0.9, 0.8: 0.5, 0.99: 0.1}, cmap="viridis", nticks=5)
    set_def = dict(gauss={0.68: 0.25, 0.95: 0.15}, ell={0.68: 0.40, 0.95: 0.20}, cmap="rainbow", nticks=3)
    if which == "default":
        return dict(use_default=True), set_def
    if which == "file":
        return dict(config_file=f), set_file
    if which == "dict-levels":
        gr["cl_alpha_dict"] = {"gauss": {"0.9": 0.3}, "ellipse": {"0.9": 0.3}}
        return dict(config_dict={"graphics": gr}), dict(set_def, gauss={0.9: 0.3}, ell={0.9: 0.3})
    if which == "dict-cmap":
        gr["color_map"] = "plasma"
        return dict(use_default=True, config_dict={"graphics": gr}), dict(set_def, cmap="plasma")
    if which == "dict-axes":
        ax["ticks"]["number"] = 4
        return dict(config_dict={"axes": ax}), dict(set_def, nticks=4)
    if which.startswith("ticks-"):
        ax["ticks"]["number"] = int(which[6:])
        return dict(config_dict={"axes": ax}), dict(set_def, nticks=int(which[6:]))
    if which == "file+dict":
        ax["ticks"]["number"] = 2
        return dict(config_file=str(f), config_dict={"axes": ax}), dict(set_file, nticks=2)
    gr["cl_alpha_dict"] = {"gauss": {"0.1": 0.3, "0.2": 0.2, "0.7": 0.1}, "ellipse": {}}
    gr["color_map"] = "viridis"
    return dict(config_dict={"axes": ax, "graphics": gr}), dict(set_def, gauss={0.1: 0.3, 0.2: 0.2, 0.7: 0.1}, ell={}, cmap="viridis")


def cases(tier):
    for s in range(len(SETS)):
        for c in choices(tier):
            for nuis in ((0, 1, 2) if c == "all" or len(c) == 2 else (1,)):
                yield {"kind": "pars", "set": s, "pars": c, "nuis": nuis}
    for n in range(5, len(PARS + MORE) + 1):
        for s in (0, 2):
            yield {"kind": "many", "set": s, "n": n}
    for o in itertools.permutations(range(3)):
        for c in (["h", "wa"], ["w0", "Omm", "h"]):
            yield {"kind": "orders", "order": list(o), "pars": c}
    for cfg in CONFIGS:
        for r in ("computed", "file", "narrow"):
            for s in (0, 1, 2):
                yield {"kind": "settings", "config": cfg, "ranges": r, "set": s}
    depth = 3 if tier == "thorough" else 2
    for a in range(len(OPS)):
        if depth == 2:
            yield {"kind": "ops", "first": [a], "depth": 2}
        else:
            for b in range(len(OPS)):
                yield {"kind": "ops", "first": [a, b], "depth": 3}
    for s in range(len(SETS)):
        for pars in (["Omm", "wa"], ["wa"], ["h", "Omm", "w0"]):
            yield {"kind": "files", "set": s, "pars": pars}
    yield {"kind": "tex"}


FILE_RANGES = {"Omm": [0.1, 0.5], "h": [0.6, 0.75], "w0": [-1.5, -0.4], "wa": [-2.0, 1.5]}
NARROW = {"Omm": [0.319, 0.33], "h": [0.669, 0.6701], "w0": [-1.01, -0.9], "wa": [-0.01, 0.02]}


def plotter_for(an, pars):
    from seyfert.fisher.fisher_plot import FisherPlotter
    p = FisherPlotter(fisher_analysis=an)
    p.setParamsToPlot(pars_to_plot=pars)
    return p


def resolve(pars):
    return sorted(PARS) if pars == "all" else list(pars)


def draw(ctx, p, w, tag, order=None, legend=True):
    import matplotlib.pyplot as plt
    with ctx.guard("draw", tag):
        fig, axes = p.makeTriangularPlot(**({} if order is None else {"order": list(order)}), **({} if legend else {"legend": False}))
        try:
            verify(ctx, fig, axes, w, order, legend, tag)
        finally:
            plt.close(fig)
    ctx.state((w.key(), tuple(order or ()), legend))


def run_pars(case, ctx):
    names = [NAMES[i] for i in SETS[case["set"]]]
    nuis, marg = case["nuis"] > 0, case["nuis"] < 2
    with ctx.guard("pars", str(case)):
        an = analysis(names, nuis, marg)
        p = plotter_for(an, case["pars"])
        p.setPlotConfig(use_default=True)
        p.setParametersPlotRanges()
        w = Want({n: covariance(raw(n, nuis), marg) for n in names}, names, resolve(case["pars"]))
        w.ranges = w.computed()
        ctx.check(list(p.pars_to_plot) == w.pars, "pars", lambda: f"{p.pars_to_plot}")
        ctx.check(set(p.plot_ranges) == set(w.pars) and all(close(p.plot_ranges[x], w.ranges[x]) for x in w.pars), "ranges", lambda: f"{p.plot_ranges} for {w.ranges}")
        draw(ctx, p, w, str(case))
    ctx.trace()


def run_many(case, ctx):
    """the analyses have more parameters than those of the other cases"""
    global PARS, FID, SCALE, TEX_PAR
    keep = PARS, FID, SCALE, TEX_PAR
    k = case["n"] - len(PARS)
    try:
        PARS = (*MORE[:k], *PARS)
        FID, SCALE, TEX_PAR = ({**old, **dict(zip(MORE[:k], new))} for old, new in zip(keep[1:], (MORE_FID, MORE_SCALE, MORE_TEX)))
        for pars in ("all", [*PARS[::2], *PARS[1::2]], list(PARS[::-1])):
            run_pars({**case, "pars": pars, "nuis": 1}, ctx)
    finally:
        PARS, FID, SCALE, TEX_PAR = keep


def run_orders(case, ctx):
    names = [NAMES[i] for i in (2, 0, 1)]
    order = [names[i] for i in case["order"]]
    with ctx.guard("orders", str(case)):
        an = analysis(names)
        an.fishers_order = list(order)
        p = plotter_for(an, case["pars"])
        p.setPlotConfig(use_default=True)
        p.setParametersPlotRanges()
        w = Want({n: covariance(raw(n, False), True) for n in names}, order, case["pars"])
        w.ranges = w.computed()
        draw(ctx, p, w, "all", None, False)
        for k in (1, 2, 3):
            for sub in itertools.permutations(names, k):
                draw(ctx, p, w, f"{order} {sub}", sub, k != 2)
        sub = an.getSubsetAnalysis(order[:2])
        p = plotter_for(sub, case["pars"])
        p.setPlotConfig(use_default=True)
        p.setParametersPlotRanges()
        w = Want({n: covariance(raw(n, False), True) for n in order[:2]}, order[:2], case["pars"])
        w.ranges = w.computed()
        draw(ctx, p, w, "subset")
        ctx.check(list(an.fisher_matrices) == names and an.fishers_order == order, "subset-left", "the analysis changed when a subset was taken")
    ctx.trace()


def run_settings(case, ctx):
    names = [NAMES[i] for i in SETS[case["set"]]]
    with ctx.scratch() as d, ctx.guard("settings", str(case)):
        an = analysis(names)
        p = plotter_for(an, ["wa", "h"])
        kw, sets = settings(case["config"], d)
        p.setPlotConfig(**kw)
        w = Want({n: covariance(raw(n, False), True) for n in names}, names, ["wa", "h"])
        for k, v in sets.items():
            setattr(w, k, v)
        set_ranges(p, w, case["ranges"], d)
        draw(ctx, p, w, str(case))
    ctx.trace()


def set_ranges(p, w, which, d):
    if which == "computed":
        p.setParametersPlotRanges()
        w.ranges = w.computed()
    else:
        r = FILE_RANGES if which == "file" else NARROW
        f = d / f"ranges_{which}.json"
        f.write_text(json.dumps(r))
        p.setParametersPlotRanges(ranges_file=f)
        w.ranges = {k: tuple(v) for k, v in r.items()}


OPS = (("pars", ["h", "w0"]), ("pars", ["wa"]), ("config", "default"), ("config", "file"), ("config", "dict-levels"), ("ranges", "file"), ("ranges", "computed"),
       ("matrices", [[0], [1]]), ("matrices", [[0, 1], [2], [0]]), ("order", 1), ("order", 2))


def run_ops(case, ctx):
    tails = [case["first"]] if len(case["first"]) == case["depth"] else [case["first"] + [b] for b in range(len(OPS))]
    rests = [t + ([c] if case["depth"] == 3 and len(t) == 2 else []) for t in tails for c in (range(len(OPS)) if case["depth"] == 3 and len(t) == 2 else (0,))]
    for seq in rests:
        with ctx.scratch() as d, ctx.guard("ops", str([OPS[i] for i in seq])):
            run_seq(seq, ctx, d)
        ctx.trace()


def run_seq(seq, ctx, d):
    names = list(NAMES[:3])
    an = analysis(names, base=True)
    p = plotter_for(an, ["h", "wa"])
    p.setPlotConfig(use_default=True)
    p.setParametersPlotRanges()
    full = {n: raw(n, False) for n in names}
    w = Want({n: covariance(full[n], True) for n in names}, names, ["h", "wa"])
    w.ranges = w.computed()
    ordered = False
    for step, i in enumerate(seq):
        kind, arg = OPS[i]
        tag = f"{[OPS[k] for k in seq[:step + 1]]}"
        if kind == "pars":
            p.setParamsToPlot(pars_to_plot=list(arg))
            w.pars = list(arg)
            set_ranges(p, w, "computed", d)
        elif kind == "config":
            kw, sets = settings(arg, d)
            p.setPlotConfig(**kw)
            for k, v in sets.items():
                setattr(w, k, v)
            set_ranges(p, w, "computed", d)
        elif kind == "ranges":
            set_ranges(p, w, arg, d)
        elif kind == "matrices":
            if ordered:
                continue        # an order fixed by hand names the matrices it was fixed for
            an.evaluateFishersFromAddendsList([[names[k] for k in add] for add in arg])
            an.prepareFisherMatrices()
            an.evaluateMarginalizedErrors()
            w.covs = {"+".join(names[k] for k in add): covariance(sum(full[names[k]] for k in add), True) for add in arg}
            w.order = list(w.covs)
            set_ranges(p, w, "computed", d)
        elif kind == "order":
            now = sorted(w.order)
            w.order = now[arg % len(now):] + now[:arg % len(now)]
            an.fishers_order = list(w.order)
            ordered = True
        for n in w.order:
            if n not in TEX_F:
                TEX_F[n] = "+".join(TEX_F[x] for x in (names[0], names[1]))
        draw(ctx, p, w, tag)


def run_files(case, ctx):
    import matplotlib.pyplot as plt
    from matplotlib.collections import QuadMesh
    names = [NAMES[i] for i in SETS[case["set"]]]
    an = analysis(names)
    p = plotter_for(an, case["pars"])
    p.setPlotConfig(use_default=True)
    p.setParametersPlotRanges()
    w = Want({n: covariance(raw(n, False), True) for n in names}, names, case["pars"])
    w.ranges = w.computed()
    plt.close("all")
    given = {k: v for k, v in FILE_RANGES.items() if case["pars"] == ["Omm", "wa"] or k in case["pars"]}
    with ctx.scratch() as d, ctx.guard("files", str(case)):
        for content in (None, b"of before"):
            if content:
                (d / "contour_ana.pdf").write_bytes(content)
            p.makeTriangularPlot(outdir=d)
        ctx.check(sorted(f.name for f in d.iterdir()) == ["contour_ana.pdf"] and (d / "contour_ana.pdf").read_bytes()[:4] == b"%PDF", "contour-file", str(list(d.iterdir())))
        r = d / "ranges.json"
        p.writeParameterPlotRangesToFile(r)
        was = {k: tuple(v) for k, v in json.loads(r.read_text()).items()}
        ctx.check(set(was) == set(case["pars"]) and all(close(was[k], w.ranges[k]) for k in was), "ranges-file", str(was))
        f2 = d / "other.json"
        f2.write_text(json.dumps(given))
        p.setParametersPlotRanges(ranges_file=str(f2))
        before = r.read_bytes()
        p.writeParameterPlotRangesToFile(r)
        ctx.check(r.read_bytes() == before, "ranges-kept", "an existing ranges file was overwritten")
        p.writeParameterPlotRangesToFile(str(r), overwrite=True)
        ctx.check(json.loads(r.read_text()) == given, "ranges-overwrite", r.read_text())
        p.setParametersPlotRanges(ranges_file=r)
        w.ranges = {k: tuple(v) for k, v in given.items()}
        draw(ctx, p, w, "after reading ranges")
        ctx.raises(FileNotFoundError, lambda: p.setParametersPlotRanges(ranges_file=d / "none.json"), "ranges-missing", "a missing ranges file")
        ctx.trace()
    plt.close("all")
    with ctx.scratch() as d, ctx.guard("correlations", str(case)):
        p = plotter_for(an, "all")
        p.setPlotConfig(use_default=True)
        for n in names:
            fig, ax = p.makeSingleCorrelationPlot(n)
            c = w.covs[n].to_numpy()
            want = c / np.sqrt(np.outer(np.diag(c), np.diag(c)))
            m = [k for k in ax.get_children() if isinstance(k, QuadMesh)]
            rows = [t.get_text() for t in ax.get_yticklabels()]
            cols = [t.get_text() for t in ax.get_xticklabels()]
            tex = {f"${v}$": k for k, v in TEX_PAR.items()}
            if ctx.check(len(m) == 1 and sorted(rows) == sorted(tex) and sorted(cols) == sorted(tex), "heatmap", lambda: f"{n}: {rows} {cols}"):
                got = pd.DataFrame(np.asarray(m[0].get_array()).reshape(4, 4), index=[tex[x] for x in rows], columns=[tex[x] for x in cols])
                ctx.check(close(got.loc[list(PARS), list(PARS)], want, 1e-6), "correlation", lambda: f"{n}: {got} for {want}")
                ctx.check(m[0].get_clim() == (-1.0, 1.0), "limits", lambda: f"{n}: {m[0].get_clim()}")
            ctx.check(ax.get_title() == f"${TEX_F[n]}$", "title", lambda: f"{n}: {ax.get_title()}")
            plt.close(fig)
            ctx.step()
        for f in d.glob("*.pdf"):
            f.unlink()
        for n in names:
            (d / f"correlation_ana_{n}.pdf").write_bytes(b"of before")
        p.makeAllCorrelationPlots(outdir=d)
        ctx.check(all(f.read_bytes()[:4] == b"%PDF" for f in d.iterdir()), "correlation-files", "a plot of before is still there")
        ctx.check(sorted(f.name for f in d.iterdir()) == sorted(f"correlation_ana_{n}.pdf" for n in names), "correlation-files", lambda: str(sorted(f.name for f in d.iterdir())))
        ctx.check(not plt.get_fignums(), "left-open", f"{len(plt.get_fignums())} figures left open after being saved")
        ctx.state(("files", tuple(names)))
        ctx.trace()
    plt.close("all")


def run_tex(case, ctx):
    from seyfert.utils.tex_utils import TeXTranslator
    t = TeXTranslator()
    pars = ["w0", "wa", "mnu", "Omm", "OmDE", "Omb", "sigma8", "ns", "h", "gamma", "aIA", "etaIA", "betaIA"]
    pars += [f"bgph{i}" for i in range(40)] + [f"bgsp{i}" for i in range(40)]
    with ctx.guard("tex", "parameters"):
        seen = {}
        for p in pars:
            x = t.PhysParNameToTeX(p)
            ctx.check(x and x not in seen, "tex-unique", f"{p} and {seen.get(x)} are both {x!r}")
            seen[x] = p
            ctx.check(t.PhysParNameToTeX(p, include_dollar=True) == f"${x}$", "tex-dollar", p)
            ctx.state(x)
            ctx.step()
        for p in pars[:13]:
            ctx.check(t.CosmoParTeXToName(t.CosmoParNameToTeX(p)) == p and t.PhysParNameToTeX(p) == t.CosmoParNameToTeX(p), "tex-back", p)
        for a, b, c in itertools.permutations(["bgph12", "h", "Omm", "bgsp3", "bgph1"], 3):
            got = t.PhysParsNamesToTeX([a, b, c])
            ctx.check(list(got) == [t.PhysParNameToTeX(x) for x in (a, b, c)], "tex-list", f"{a} {b} {c}: {got}")
            ctx.check(t.PhysParsNamesToTeX({a, b, c}) == {t.PhysParNameToTeX(x) for x in (a, b, c)}, "tex-set", f"{a} {b} {c}")
    with ctx.guard("tex-fishers", ""):
        for n, x in list(TEX_F.items()):
            ctx.check(t.translateToTeX(n) == x and t.toTeX(n) == x, "tex-fisher", lambda: f"{n}: {t.translateToTeX(n)}")
            ctx.step()
        parts = ["WL", "GCph", "GCsp", "GCsp(Pk)", "XC(WL,GCph)", "XC(WL,GCsp)", "XC(GCph,GCsp)"]
        seen = {}
        for k in range(1, 5):
            for c in itertools.permutations(parts, k):
                n = "[" + "+".join(c) + "]"
                for al in (False, True):
                    x = t.translateToTeX(n, use_aliases=al)
                    ctx.check((x, al) not in seen, "tex-fisher-unique", f"{n} and {seen.get((x, al))} are both {x}")
                    seen[(x, al)] = n
                    ctx.eval()
        ctx.trace()


def run_case(case, ctx):
    init()
    {"pars": run_pars, "many": run_many, "orders": run_orders, "settings": run_settings, "ops": run_ops, "files": run_files, "tex": run_tex}[case["kind"]](case, ctx)

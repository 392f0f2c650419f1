"""Configuration window: what is written is what the widgets show, and it loads as a forecast with these probes, multipoles, files and parameters."""
import copy
import itertools
import json
import os
import pickle
import resource
import sys
import traceback
from importlib.machinery import SourceFileLoader
from importlib.util import module_from_spec, spec_from_loader
from pathlib import Path

from vlib.core import REPO
from checks.P28 import LONG, lin_grid, log_grid, near

PROPERTY = "P32"
LEVEL = "model_checking"
RULE = ("all widgets of the window x values of an alphabet, the product of the multipole widgets of every page, all sets of present probes x flatness x alignments x marginalisations, all sets of free parameters, "
        "all sequences of edits up to a depth with the configuration taken after each of them, all saves with names, with and without date, through the program itself; every configuration is compared with "
        "what a reader of the widgets, found by their labels, sees, and loaded as a forecast; a state is the content of the window")
BOUNDS = {"quick": "some 120 single edits, 4 x 96 multipole settings, 512 sets of probes and flags, 512 sets of free parameters, sequences of 2 edits out of 20, 12 saves, 20 wrong contents",
          "thorough": "sequences of 3 edits out of 20"}
WORKERS = 8
DATA = REPO / "seyfert" / "data" / "input_data"
PAGES = {"WL": "Lensing", "GCph": "GCph", "GCsp": "GCsp", "V": "Void"}
ROWS = ("h", "w0", "wa", "OmDE", "Omm", "Omb", "ns", "sigma8", "mnu")
COLUMNS = ("Fiducial", "IsFree", "Units", "SteMFactor", "DerivativeMethod")
ALIGN = ("aIA", "cIA", "etaIA", "betaIA")
ELLS = ("oule3_ell_bins.txt", "wl_pess_ells_10_750_log_nell_100_and_750_1500_lin.txt", "wl_optm_ells_10_3000_log_nell_100_and_3000_5000_lin.txt")
BOX, NAMED, LOG, LMIN, LMAX, LNUM = "ExternalMultipolesFile", "file of multipoles", "Logarithmic Selection", "Min Multipole", "Max Multipole", "log multipoles number"
DENSITY, BIAS, MARG, METHOD = "DensityFile", "Bias input file", "Marginalize Over Bias", "BiasDerivativeMethod"
IA, KCUT, KWIDTH, OFF = "Include Intrinsic Alignment", "PowerSpectrumKCut", "PowerSpectrumKCutWidth", "Compute Off Diagonal Cls"
COMMON = ("Present", BOX, NAMED, LOG, LMIN, LMAX, LNUM, DENSITY)
FIELDS = {"WL": COMMON + (IA,) + ALIGN, "GCph": COMMON + (BIAS, MARG, METHOD), "GCsp": COMMON + (BIAS, MARG, METHOD, OFF), "V": COMMON + (BIAS, MARG, KCUT, KWIDTH)}


def init():
    os.environ["QT_QPA_PLATFORM"] = "offscreen"


# ---------------------------------------------------------------- in the process of the window
class Eyes:
    """The widgets of a window, found as a user finds them: by page and label."""

    def __init__(self, window):
        from PyQt5 import QtCore, QtWidgets as W
        self.W, self.w, self.found = W, window, {}
        window.show()
        app = W.QApplication.instance()
        tabs = window.findChild(W.QTabWidget)
        for alias, title in PAGES.items():
            i = [tabs.tabText(i) for i in range(tabs.count())].index(title)
            tabs.setCurrentIndex(i)
            app.processEvents()
            page = tabs.widget(i)
            labels = {}

            def at(x):
                p = x.mapTo(page, QtCore.QPoint(0, 0))
                return p.x(), p.y() + x.height() / 2
            for x in page.findChildren(W.QLabel):
                labels.setdefault(x.text(), []).append(at(x))
            boxes = {x.text(): x for x in page.findChildren(W.QCheckBox)}
            inputs = [x for k in (W.QLineEdit, W.QAbstractSpinBox, W.QComboBox) for x in page.findChildren(k) if not isinstance(x.parent(), W.QAbstractSpinBox)]
            for f in FIELDS[alias]:
                if f in boxes:
                    self.found[alias, f] = boxes[f]
                    continue
                where = [at(boxes[BOX])] if f == NAMED else labels[f]
                near_by = [(abs(at(x)[1] - y), at(x)[0] - left, i) for left, y in where for i, x in enumerate(inputs) if at(x)[0] > left and abs(at(x)[1] - y) < 12]
                self.found[alias, f] = inputs[min(near_by)[2]]
        assert len({id(x) for x in self.found.values()}) == len(self.found)
        ui = window.ui
        self.found["", "Survey Sky Fraction"], self.found["", "Flat"] = ui.f_sky, ui.is_universe_flat
        t = ui.cosmo_pars
        self.cols = {t.horizontalHeaderItem(j).text(): j for j in range(t.columnCount())}
        self.rows = {t.verticalHeaderItem(i).text(): i for i in range(t.rowCount())}

    def get(self, page, f):
        if page == "table":
            return self.w.ui.cosmo_pars.item(self.rows[f[0]], self.cols[f[1]]).text()
        if page == "steps":
            return self.w.ui.stem_disps.item(f, 0).text()
        x = self.found[page, f]
        if isinstance(x, self.W.QCheckBox):
            return x.isChecked()
        if isinstance(x, self.W.QLineEdit):
            return x.text()
        return x.currentText() if isinstance(x, self.W.QComboBox) else x.value()

    def put(self, page, f, value):
        if page == "table":
            self.w.ui.cosmo_pars.item(self.rows[f[0]], self.cols[f[1]]).setText(value)
            return
        if page == "steps":
            self.w.ui.stem_disps.item(f, 0).setText(value)
            return
        x = self.found[page, f]
        if isinstance(x, self.W.QCheckBox):
            x.setChecked(value)
        elif isinstance(x, self.W.QLineEdit):
            x.setText(value)
        elif isinstance(x, self.W.QComboBox):
            x.setCurrentIndex(x.findText(value))
        else:
            x.setValue(value)

    def all(self):
        out = {k: self.get(*k) for k in self.found}
        out.update({("table", (r, c)): self.get("table", (r, c)) for r in self.rows for c in self.cols})
        out.update({("steps", i): self.get("steps", i) for i in range(self.w.ui.stem_disps.rowCount())})
        return out


def forked(fn, cwd):
    """what fn gives, in a process of its own standing in cwd; (result or None, exit status, what it wrote on its error stream)"""
    out, err = Path(cwd).parent / f"out.{os.getpid()}", Path(cwd).parent / f"err.{os.getpid()}"
    out.write_bytes(b"")
    pid = os.fork()
    if pid == 0:
        try:
            fd = os.open(err, os.O_CREAT | os.O_WRONLY | os.O_TRUNC)
            os.dup2(fd, 1)
            os.dup2(fd, 2)
            sys.stdout, sys.stderr = open(1, "w", closefd=False), open(2, "w", closefd=False)
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            os.environ.update(QT_QPA_PLATFORM="offscreen", XDG_RUNTIME_DIR=str(cwd.parent), USER="somebody")
            os.chdir(cwd)

            def tell(x):
                out.write_bytes(pickle.dumps(x))
            code = 0
            try:
                fn(tell)
            except SystemExit as e:
                code = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
            except BaseException:
                traceback.print_exc()
                code = 70
            sys.stderr.flush()
        finally:
            os._exit(code)
    _, st = os.waitpid(pid, 0)
    raw = out.read_bytes()
    return (pickle.loads(raw) if raw else None), (os.WEXITSTATUS(st) if os.WIFEXITED(st) else -os.WTERMSIG(st)), err.read_text(errors="replace")


def windows(traces, every):
    """for each sequence of edits, in a window of its own: what is shown and what the window makes of it, (after every edit) at the end"""
    def look(eyes):
        from seyfert.gui.interface_window import GUIFileInterface
        shown = eyes.all()
        try:
            data = GUIFileInterface(eyes.w.ui).dumpGUIToJSON()
            text = json.dumps(data)
        except Exception as e:
            return shown, None, (type(e).__name__, f"{type(e).__name__}: {e}; " + traceback.format_exc()[-300:]), eyes.all() == shown
        return shown, json.loads(text), None, eyes.all() == shown

    def fn(tell):
        import argparse
        from PyQt5 import QtWidgets
        app = QtWidgets.QApplication([])
        from seyfert.gui.interface_window import ConfigGUIWindow
        res = []
        for t in traces:
            w = ConfigGUIWindow(argparse.Namespace(no_datetime=True))
            eyes = Eyes(w)
            seen = [look(eyes)] if every else []
            for e in t:
                eyes.put(*e)
                if every:
                    seen.append(look(eyes))
            res.append(seen if every else [look(eyes)])
            w.hide()
            w.deleteLater()
            app.processEvents()
        tell(res)
    return fn


def program(argv, edits, name, press=True):
    """the program, with a user who makes the edits, presses the button, gives the name and confirms"""
    def fn(tell):
        from PyQt5 import QtCore, QtWidgets as W
        path = REPO / "bin" / "gui_config"
        loader = SourceFileLoader("gui_config", str(path))
        mod = module_from_spec(spec_from_loader("gui_config", loader))
        sys.argv = [str(path)] + list(argv)
        loader.exec_module(mod)
        keep = []

        def act():
            w = [x for x in W.QApplication.topLevelWidgets() if isinstance(x, W.QMainWindow)][0]
            eyes = Eyes(w)
            for e in edits:
                eyes.put(*e)
            tell(eyes.all())
            if not press:
                w.close()
                W.QApplication.instance().quit()
                return

            def confirm():
                dlg = W.QApplication.activeModalWidget() or w.dialog
                line = dlg.findChild(W.QLineEdit)
                line.setText(name)
                [b for b in dlg.findChildren(W.QPushButton) if b.text() == "Save"][0].pressed.emit()
                os._exit(71)
            t = QtCore.QTimer()
            keep.append(t)
            t.setSingleShot(True)
            t.timeout.connect(confirm)
            t.start(10)
            w.ui.json_save_button.pressed.emit()
            os._exit(72)
        for verb in ("exec_", "exec"):
            old = getattr(W.QApplication, verb)

            def run(*a, old=old):
                QtCore.QTimer.singleShot(10, act)
                QtCore.QTimer.singleShot(60000, lambda: os._exit(73))
                return old()
            setattr(W.QApplication, verb, staticmethod(run))
        mod.main(mod.program_options().parse_args())
    return fn


# ---------------------------------------------------------------- what a configuration has to say
def judge(ctx, shown, data, at, d, load=True):
    g = shown.get
    ctx.state(sorted((str(k), str(v)) for k, v in shown.items()))

    def eq(got, want, what, key="content"):
        ctx.eq(got, want, key, f"{at}: {what}")
    eq(data["survey"]["f_sky"], float(g(("", "Survey Sky Fraction"))), "sky fraction")
    eq(data["cosmology"]["flat"], g(("", "Flat")), "flatness")
    steps = [float(v) for k, v in sorted((k, v) for k, v in shown.items() if k[0] == "steps")]
    eq([float(x) for x in data["derivative_settings"]["base_stem_disps"]], steps, "displacements")
    pars = {}
    for r in ROWS:
        c = {c: g(("table", (r, c))) for c in COLUMNS}
        pars[r] = dict(fiducial=float(c["Fiducial"]), current_value=float(c["Fiducial"]), is_free_parameter={"true": True, "false": False}[c["IsFree"].lower()], units=c["Units"],
                       stem_factor=float(c["SteMFactor"]), derivative_method=c["DerivativeMethod"], kind="CosmologicalParameter")
    got = {p["name"]: p for p in data["cosmology"]["parameters"]}
    eq(sorted(got), sorted(ROWS), "names of the parameters")
    eq(len(data["cosmology"]["parameters"]), len(ROWS), "number of parameters")
    for r in ROWS:
        eq({k: got[r].get(k) for k in pars[r]}, pars[r], f"parameter {r}")
    eq(sorted(data["probes"]), sorted(PAGES), "probes")
    want_ia = {n: dict(fiducial=float(g(("WL", n))), is_free_parameter=n != "cIA" and g(("WL", IA)), probe="Lensing", kind="NuisanceParameter") for n in ALIGN}
    settings = {"WL": {"include_IA": g(("WL", IA))}, "GCph": {}, "GCsp": {"compute_gcsp_cl_offdiag": g(("GCsp", OFF))},
                "V": {"void_kcut_invMpc": g(("V", KCUT)), "void_kcut_width_invMpc": g(("V", KWIDTH))}}
    for a in PAGES:
        p = data["probes"][a]
        eq(p["presence_flag"], g((a, "Present")), f"presence of {a}")
        eq(p["density_file"], g((a, DENSITY)), f"density of {a}")
        if a != "WL":
            eq(p["bias_file"], g((a, BIAS)), f"bias of {a}")
            eq(p["marginalize_bias_flag"], g((a, MARG)), f"marginalisation of the bias of {a}")
            eq(p["bias_derivative_method"], g((a, METHOD), "SteM"), f"derivative method of the bias of {a}")
        eq(p["specific_settings"], settings[a], f"settings of {a}")
        if g((a, BOX)) and g((a, NAMED)):
            eq(p.get("ell_external_filename"), g((a, NAMED)), f"file of multipoles of {a}")
        else:
            eq((p.get("ell_external_filename"), p["l_min"], p["l_max"], p["ell_log_selection"]), (None, g((a, LMIN)), g((a, LMAX)), g((a, LOG))), f"multipoles of {a}")
            if g((a, LOG)):
                eq(p["log_l_number"], g((a, LNUM)), f"number of multipoles of {a}")
        ia = {n["name"]: n for n in p.get("extra_nuisance_parameters", [])}
        eq({n: {k: v.get(k) for k in want_ia["aIA"]} for n, v in ia.items()}, want_ia if a == "WL" else {}, f"own parameters of {a}")
    if not load:
        return
    from seyfert.config.forecast_config import ForecastConfig
    f = d / "written.json"
    f.write_text(json.dumps(data))
    with ctx.guard("loading", at):
        fc = ForecastConfig(input_file=f, input_data_dir=DATA, load_phys_params=True)
        present = [a for a in PAGES if g((a, "Present"))]
        eq(sorted(fc.present_probes), sorted(LONG[a] for a in present), "probes of the forecast", "loading")
        eq((fc.survey_f_sky, fc.is_universe_flat, fc.shot_noise_file), (float(g(("", "Survey Sky Fraction"))), g(("", "Flat")), None), "sky and flatness of the forecast", "loading")
        disps = sorted(fc.phys_pars.stem_dict.values())
        eq(disps, sorted([s for s in steps] + [-s for s in steps]), "displacements of the forecast", "loading")
        want = dict(pars)
        probe_of = {}
        for a in present:
            pc = fc[LONG[a]]
            eq(Path(pc.density_init_file).name, g((a, DENSITY)), f"density of {a} of the forecast", "loading")
            if a != "WL":
                eq((Path(pc.bias_init_file).name, pc.marginalize_bias), (g((a, BIAS)), g((a, MARG))), f"bias of {a} of the forecast", "loading")
            eq(pc.specific_settings, settings[a], f"settings of {a} of the forecast", "loading")
            if g((a, BOX)) and g((a, NAMED)):
                import numpy as np
                t = np.loadtxt(DATA / g((a, NAMED)))
                grid = t[:, 0], t[:, 1]
            else:
                grid = log_grid(g((a, LMIN)), g((a, LMAX)), g((a, LNUM))) if g((a, LOG)) else lin_grid(int(g((a, LMIN))), int(g((a, LMAX))))
            ctx.check(near(pc.l_bin_centers, grid[0]) and near(pc.l_bin_widths, grid[1], 1e-8), "loading", lambda: f"{at}: multipoles of {a} of the forecast {pc.l_bin_centers[:3]}..{pc.l_bin_centers[-1]} "
                      f"({len(pc.l_bin_centers)}), expected {grid[0][:3]}..{grid[0][-1]} ({len(grid[0])})")
            if a != "WL":
                for n, v in bias_values(g((a, BIAS))).items():
                    want[n] = dict(fiducial=v, current_value=v, is_free_parameter=g((a, MARG)), kind="NuisanceParameter", derivative_method=g((a, METHOD), "SteM"))
                    probe_of[n] = LONG[a]
        if "WL" in present:
            want.update({n: {k: v for k, v in x.items() if k != "probe"} for n, x in want_ia.items()})
            probe_of.update({n: "Lensing" for n in ALIGN})
        have = fc.phys_pars
        eq(sorted(have), sorted(want), "parameters of the forecast", "loading")
        for n, x in want.items():
            eq({k: getattr(have[n], k) for k in x}, x, f"parameter {n} of the forecast", "loading")
        for a in PAGES:
            eq(sorted(have.getNuisanceParametersForProbe(LONG[a])), sorted(n for n, p in probe_of.items() if p == LONG[a]), f"parameters which belong to {a}", "loading")
            eq(sorted(have.getFreeNuisanceParametersForProbe(LONG[a])), sorted(n for n, p in probe_of.items() if p == LONG[a] and want[n]["is_free_parameter"]), f"free parameters of {a}", "loading")


_bias = {}


def bias_values(name):
    if name not in _bias:
        from seyfert.cosmology.bias import Bias
        _bias[name] = dict(Bias.fromHDF5(DATA / name).nuisance_parameters or {})
    return _bias[name]


# ---------------------------------------------------------------- what the user does
def values():
    out = [("", "Survey Sky Fraction", v) for v in ("1", "0.25", "1e-2", ".5", "0.36361026083215196")]
    out += [("", "Flat", v) for v in (True, False)]
    for i in range(7):
        out.append(("steps", i, ("0.003", "1e-3", "0.2")[i % 3]))
    for i, r in enumerate(ROWS):
        out += [("table", (r, "Fiducial"), ("0.7", "-2", "1e-3")[i % 3]), ("table", (r, "IsFree"), ("true", "false", "True", "FALSE", "False")[i % 5]), ("table", (r, "IsFree"), ("false", "true", "TRUE")[i % 3]),
                ("table", (r, "Units"), ("eV", "km/s/Mpc", "")[i % 3]), ("table", (r, "SteMFactor"), ("2", "0.5", "10.0")[i % 3]), ("table", (r, "DerivativeMethod"), ("Analytic", "SteM")[i % 2])]
    for a in PAGES:
        out += [(a, "Present", False), (a, "Present", True), (a, BOX, True), (a, BOX, False), (a, NAMED, ELLS[0]), (a, NAMED, ""), (a, LOG, False), (a, LOG, True), (a, LMIN, 20.0), (a, LMIN, 2.0), (a, LMAX, 1000.0),
                (a, LMAX, 750.0), (a, LNUM, 20), (a, LNUM, 200), (a, LNUM, 57)]
        dens = {"WL": "gcph_dndz_flagship_tutusaus.h5", "GCph": "gcph_dndz_flagship_tutusaus.h5", "GCsp": "gcsp_dndz_granett_fine_binning_model1.h5", "V": "gcph_dndz_redbook.h5"}[a]
        out.append((a, DENSITY, dens))
        if a != "WL":
            out += [(a, BIAS, {"GCph": "gcph_bias_constant.h5", "GCsp": "gcsp_bias_constant.h5", "V": "voids_bias_fiducial_growth.h5"}[a]), (a, MARG, True), (a, MARG, False)]
        if a in ("GCph", "GCsp"):
            out += [(a, METHOD, "Analytic"), (a, METHOD, "SteM")]
    out += [("WL", IA, True), ("WL", IA, False)] + [("WL", n, v) for n in ALIGN for v in ("2.5", "-1", "0")]
    out += [("GCsp", OFF, True), ("GCsp", OFF, False), ("V", KCUT, 0.2), ("V", KCUT, 1.125), ("V", KWIDTH, 0.05), ("V", KWIDTH, 0.0)]
    return out


def everything(present):
    return [(a, "Present", a in present) for a in PAGES]


def alphabet():
    return [("", "Flat", False), ("", "Survey Sky Fraction", "0.5"), ("steps", 2, "0.02"), ("table", ("Omm", "Fiducial"), "0.3"), ("table", ("wa", "IsFree"), "FALSE"), ("table", ("OmDE", "IsFree"), "true"),
            ("WL", BOX, False), ("WL", LOG, False), ("WL", NAMED, ""), ("WL", IA, False), ("WL", "aIA", "1.5"), ("GCph", BOX, True), ("GCph", NAMED, ELLS[1]), ("GCph", "Present", False), ("GCsp", LOG, False),
            ("GCsp", MARG, False), ("GCsp", METHOD, "Analytic"), ("V", "Present", True), ("V", LNUM, 33), ("V", KCUT, 0.5)]


WRONG = [("", "Survey Sky Fraction", v) for v in ("", "half", "0,5")] + [("table", (r, "Fiducial"), v) for r, v in (("h", ""), ("mnu", "zero"), ("Omm", "0,32"))] + \
        [("table", (r, "SteMFactor"), v) for r, v in (("w0", ""), ("mnu", "x"))] + [("table", (r, "IsFree"), v) for r, v in (("h", ""), ("w0", "yes"), ("ns", "1"), ("mnu", "None"), ("wa", "t"), ("Omb", "falso"))] + \
        [("WL", n, v) for n, v in (("aIA", ""), ("cIA", "c"), ("etaIA", "-"), ("betaIA", "2,17"))]


def cases(tier):
    for i in range(4):
        yield {"kind": "single", "part": i, "parts": 4}
    for a in PAGES:
        yield {"kind": "multipoles", "page": a}
    for i in range(4):
        yield {"kind": "probes", "part": i, "parts": 4}
    yield {"kind": "free"}
    n = len(alphabet())
    for i in range(n):
        yield {"kind": "sequences", "first": i, "depth": 2 if tier == "quick" else 3}
    yield {"kind": "wrong"}
    for i in range(4):
        yield {"kind": "save", "part": i, "parts": 4}


def run_case(case, ctx):
    with ctx.scratch() as d:
        d = Path(os.path.realpath(d))
        (d / "cwd").mkdir()
        globals()["case_" + case["kind"]](case, ctx, d)
        if case["kind"] != "save":
            ctx.check(not list((d / "cwd").iterdir()), "files", "files are written before saving")


def explore(ctx, d, traces, every=False, load=True):
    for i in range(0, len(traces), 200):
        part = traces[i:i + 200]
        res, code, err = forked(windows(part, every), d / "cwd")
        if res is None:
            if "/seyfert/" in err and "Traceback" in err:
                ctx.fail("window", f"the window fails ({code}): {err[-600:]}")
                return
            raise RuntimeError(f"the process of the window ended with {code}: {err[-800:]}")
        for t, seen in zip(part, res):
            ctx.trace()
            for k, (shown, data, err, same) in enumerate(seen):
                ctx.step()
                at = f"after {t[:k] if every else t}"
                made = {}
                for p, f, v in t[:k] if every else t:
                    made[p, f] = v
                bad = {k: (shown[k], v) for k, v in made.items() if shown[k] != v}
                ctx.check(not bad, "widgets", lambda: f"{at}: the window shows {bad}")
                ctx.check(same, "widgets", lambda: f"{at}: taking the configuration changes the window")
                if ctx.check(data is not None, "content", lambda: f"{at}: {err}"):
                    judge(ctx, shown, data, at, d, load and (not every or k == len(t)))


def case_single(case, ctx, d):
    vals = [v for i, v in enumerate(values()) if i % case["parts"] == case["part"]]
    explore(ctx, d, [[v] for v in vals] + ([[]] if case["part"] == 0 else []))
    explore(ctx, d, [everything([v[0]]) + [v] for v in vals if v[0] in PAGES] + [everything([v[0]]) + [(v[0], BOX, False), v] for v in vals if v[0] in PAGES])


def case_multipoles(case, ctx, d):
    a = case["page"]
    ls = (20.0, 2.0), (1000.0, 1500.0)
    traces = []
    for box, name, log, lo, hi, n in itertools.product((True, False), ("", ELLS[0], ELLS[1]), (True, False), *ls, (30, 110)):
        edits = [(a, BOX, box), (a, NAMED, name), (a, LOG, log), (a, LMIN, lo), (a, LMAX, hi), (a, LNUM, n)]
        traces.append(everything([a]) + (edits if n == 30 else edits[::-1]))
    explore(ctx, d, traces)


def case_probes(case, ctx, d):
    traces = []
    for i, (mask, flat, ia, m) in enumerate(itertools.product(range(16), (True, False), (True, False), range(8))):
        if i % case["parts"] == case["part"]:
            traces.append([(a, "Present", bool(mask >> k & 1)) for k, a in enumerate(PAGES)] + [("", "Flat", flat), ("WL", IA, ia)] + [(a, MARG, bool(m >> k & 1)) for k, a in enumerate(("GCph", "GCsp", "V"))])
    explore(ctx, d, traces)


def case_free(case, ctx, d):
    explore(ctx, d, [everything([]) + [("table", (r, "IsFree"), "true" if mask >> k & 1 else "false") for k, r in enumerate(ROWS)] for mask in range(512)])


def case_sequences(case, ctx, d):
    al = alphabet()
    rest = [list(x) for x in itertools.product(al, repeat=case["depth"] - 1)]
    explore(ctx, d, [[al[case["first"]]] + r for r in rest], every=True)


def case_wrong(case, ctx, d):
    res, code, err = forked(windows([[w] for w in WRONG], False), d / "cwd")
    if res is None:
        raise RuntimeError(f"the process of the window ended with {code}: {err[-800:]}")
    for w, seen in zip(WRONG, res):
        ctx.trace()
        ctx.step()
        ctx.state(w)
        shown, data, err, same = seen[0]
        ctx.check(shown[w[0], w[1]] == w[2], "wrong", f"{w}: the window shows {shown[w[0], w[1]]!r}")
        ctx.check(data is None and err[0] == "ValueError", "wrong", lambda: f"{w}: expected a ValueError, " + (f"got {err}" if data is None else "a configuration was made"))


def saves():
    edits = [("", "Survey Sky Fraction", "0.5"), ("table", ("Omm", "Fiducial"), "0.3"), ("V", "Present", True), ("WL", BOX, False), ("GCph", MARG, False)]
    out = []
    for i, (name, dated) in enumerate(itertools.product(("conf", "conf.json", "my.conf", "below/conf", "../up.json"), (False, True))):
        out.append((["--no_datetime"] if not dated else [], edits[:i % 6], name, dated, i == 2))
    out += [([], [w], "wrong", True, None) for w in WRONG[::8]] + [(["--no_datetime"], [WRONG[3]], "old", False, None), (["--no_datetime"], edits, None, False, None)]
    return out


def case_save(case, ctx, d):
    cwd = d / "cwd"
    for i, (argv, edits, name, dated, old) in enumerate(saves()):
        if i % case["parts"] != case["part"]:
            continue
        ctx.trace()
        ctx.step()
        at = f"gui_config {' '.join(argv)} saved as {name!r} after {edits}"
        for f in list(cwd.iterdir()):
            f.unlink()
        if old:
            (cwd / "conf.json").write_text('{"old": true, "and": "' + "long" * 5000 + '"}')
        around = sorted(x.name for x in d.iterdir() if not x.name.startswith(("out.", "err.")))
        shown, code, err = forked(program(argv, edits, name, press=name is not None), cwd)
        if shown is None or code in (71, 72, 73) and name is not None and old is not None:
            if "/seyfert/" in err and "Traceback" in err:
                ctx.fail("save", f"{at}: ended with {code}: {err[-600:]}")
                continue
            if shown is None:
                raise RuntimeError(f"{at}: ended with {code}: {err[-800:]}")
        files = sorted(x.name for x in cwd.iterdir())
        ctx.check(sorted(x.name for x in d.iterdir() if not x.name.startswith(("out.", "err."))) == around, "save", f"{at}: files are written in other places")
        ctx.state((at, tuple(sorted((str(k), str(v)) for k, v in shown.items()))))
        if old is None:
            ctx.check(not files, "save", f"{at}: {files} written")
            ctx.check((code != 0) == (name is not None), "save", f"{at}: ended with {code}")
            continue
        ctx.check(code == 0, "save", f"{at}: ended with {code}: {err[-300:]}")
        if not ctx.check(len(files) == 1, "save", f"{at}: files {files}"):
            continue
        base = Path(name).name
        if dated:
            from seyfert import VERSION
            ctx.check(files[0].startswith(f"{base}_{VERSION}_") and files[0].endswith(".json"), "save", f"{at}: file {files[0]}")
        else:
            ctx.eq(files[0], base if base.endswith(".json") else base + ".json", "save", f"{at}: file")
        with ctx.guard("save", at):
            data = json.loads((cwd / files[0]).read_text())
            judge(ctx, shown, data, at, d)
        made = {(p, f): v for p, f, v in edits}
        ctx.check(all(shown[k] == v for k, v in made.items()), "save", f"{at}: the window shows something else")

"""Tables and charts built from the tables of errors: selections, hybrid rows, differences, LaTeX and Excel output, bars and gains."""
import itertools
import json
import math
import re

import numpy as np
import pandas as pd

PROPERTY = "P30"
LEVEL = "model_checking"
RULE = ("all queries over all columns, all sets of option columns x bins x orders of rows, all ordered choices of matrices and references on tables of results, against "
        "rows computed one by one from a dictionary of values; every number of LaTeX and Excel tables read back; every bar, line and panel of the charts; "
        "a state is (table, question)")
BOUNDS = {"quick": "4 matrices x 3 numbers of bins x 16 options; 1620 queries x 4; 16 sets of columns x 3 x 3; ordered choices of 1-3 of 4 matrices x 4 references; 31 rows and 16 tables of LaTeX",
          "thorough": "as quick, choices of all 4 matrices and 24 orders of rows"}
WORKERS = 8

F = ("[WL]", "[GCph] + [GCsp(Pk)]", "[GCph+GCsp]", "[GCph+GCsp+XC(GCph,GCsp)]")
ALIAS = {"[WL]": r"[\WL]", "[GCph] + [GCsp(Pk)]": r"[\GCph] + [\GCsp(P_k)]", "[GCph+GCsp]": r"[\GCph+\GCsp]",
         "[GCph+GCsp+XC(GCph,GCsp)]": r"[\GCph+\GCsp+\xc{\GCph}{\GCsp}]"}
TEX = {"[WL]": r"[\mathrm{WL}]", "[GCph] + [GCsp(Pk)]": r"[\mathrm{GC_{ph}}] + [\mathrm{GC_{sp}}(P_k)]", "[GCph+GCsp]": r"[\mathrm{GC_{ph}}+\mathrm{GC_{sp}}]",
       "[GCph+GCsp+XC(GCph,GCsp)]": r"[\mathrm{GC_{ph}}+\mathrm{GC_{sp}}+\mathrm{XC}(\mathrm{GC_{ph}},\mathrm{GC_{sp}})]"}
BINS = (4, 12, 24)
OPTS = (("scenario", ("optimistic", "pessimistic")), ("shot_noise_sp_reduced", (False, True)), ("gcph_minus_gcsp", (False, True)),
        ("gcph_only_bins_in_spectro_range", (False, True)))
ERR = ("FoM", "Omm", "h", "w0")
ALL_INDEX = ("fisher", "n_sp_bins", "scenario", "shot_noise_sp_reduced", "gcph_minus_gcsp", "gcph_only_bins_in_spectro_range")


def init():
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    plt.rcParams["figure.max_open_warning"] = 0


def value(key, err):
    """an irregular number for every row and column"""
    h = 0
    for ch in repr((key, err)):
        h = (h * 131 + ord(ch)) % 100003
    x = (h + 1) / 100003
    return round(5 + 400 * x, 6) if err == "FoM" else round(0.001 + 0.3 * x, 8)


def rows(opts, bins=BINS, fishers=F, n=True):
    """list of dictionaries: a row per matrix, number of bins and options"""
    out = []
    for f in fishers:
        for b in (bins if n else (None,)):
            for o in itertools.product(*[v for _, v in opts]):
                r = {"fisher": f}
                if n:
                    r["n_sp_bins"] = b
                r.update(zip([k for k, _ in opts], o))
                key = tuple(r.values())
                for e in ERR:
                    r[e] = value(key, e)
                out.append(r)
    return out


def frame(rs):
    return pd.DataFrame(rs)


def same(a, b):
    return a == b or (isinstance(a, float) and isinstance(b, float) and (math.isnan(a) and math.isnan(b) or abs(a - b) <= 1e-9 * max(abs(a), abs(b))))


def records(df):
    return [{k: (v.item() if hasattr(v, "item") else v) for k, v in r.items()} for r in df.to_dict("records")]


def equal_rows(got, want):
    return len(got) == len(want) and all(list(g) == list(w) and all(same(g[k], w[k]) for k in w) for g, w in zip(got, want))


def cases(tier):
    for f in (None,) + F:
        for b in (None,) + BINS:
            yield {"kind": "select", "fisher": f, "bins": b}
    for k in range(16):
        for bins in ([4], [12, 4], [4, 12, 24]):
            yield {"kind": "hybrid", "opts": k, "bins": bins, "orders": 24 if tier == "thorough" else 3}
    n = 4 if tier == "thorough" else 3
    for k in range(1, n + 1):
        for c in itertools.permutations(range(4), k):
            yield {"kind": "choice", "fishers": list(c)}
    for k in (0, 1, 2, 3, 7):
        for b in (0, 1):
            yield {"kind": "diff", "opts": k, "bins": b}
    for i in range(4):
        yield {"kind": "latex", "part": i}
    yield {"kind": "rows"}
    yield {"kind": "excel"}
    for b in BINS:
        yield {"kind": "bars", "bins": b}
    yield {"kind": "gains"}
    for i in range(1, 4):
        for j in range(1, 4):
            yield {"kind": "grid", "shape": [i, j]}


def opts_of(mask):
    return [o for i, o in enumerate(OPTS) if mask >> i & 1]


def constant(rs, k):
    return all(same(r[k], rs[0][k]) for r in rs)


def run_select(case, ctx):
    from seyfert.notebook_helpers import table_helpers as th
    rs = rows(OPTS)
    df = frame(rs)
    before = df.copy()
    base = {}
    if case["fisher"] is not None:
        base["fisher"] = case["fisher"]
    if case["bins"] is not None:
        base["n_sp_bins"] = case["bins"]
    for vals in itertools.product(*[(None,) + v for _, v in OPTS]):
        q = dict(base)
        q.update({k: v for (k, _), v in zip(OPTS, vals) if v is not None})
        if not q:
            continue
        hit = [i for i, r in enumerate(rs) if all(r[k] == v for k, v in q.items())]
        for drop in (False, True):
            for rem in (False, True):
                with ctx.guard("select", f"{q} {drop} {rem}"):
                    got = th.select_from_query_dict(df, dict(q), drop_index=drop, remove_constant_columns=rem)
                    want = [rs[i] for i in hit]
                    if rem and len(want) > 1:
                        keep = [k for k in want[0] if not constant(want, k)]
                        want = [{k: r[k] for k in keep} for r in want]
                    ctx.check(equal_rows(records(got), want), "select", lambda: f"{q} {drop} {rem}: {len(got)} rows, {list(got.columns)} for {len(want)}")
                    ctx.check(list(got.index) == (list(range(len(hit))) if drop else hit), "select-index", lambda: f"{q} {drop}: {list(got.index)[:5]}")
                    ctx.step()
        ctx.state(tuple(q.items()))
    ctx.check(df.equals(before), "select-left", "the table changed when rows were selected")
    ctx.raises(KeyError, lambda: th.select_from_query_dict(df, {**base, "no_such": 1}), "select-unknown", "an unknown column")
    if case["fisher"] is None and case["bins"] is None:
        default = {"scenario": "optimistic", "shot_noise_sp_reduced": False, "gcph_minus_gcsp": False, "gcph_only_bins_in_spectro_range": False}
        for k in range(5):
            for ex in itertools.combinations(default, k):
                for vals in itertools.product((None, "x"), repeat=4):
                    kw = {n: v for n, v in zip(default, vals) if v is not None}
                    with ctx.guard("query", f"{ex} {kw}"):
                        want = {n: kw.get(n, v) for n, v in default.items() if n not in ex}
                        got = th.query_dict(exclude=list(ex), other=3, **kw)
                        ctx.check(got == want and th.query_dict(exclude=ex if ex else None, **kw) == want, "query", lambda: f"{ex} {kw}: {got}")
                        ctx.step()
        ctx.check(th.default_query_dict() == default, "query", "the default query changed")
    ctx.trace()


def orders_of(n, how_many):
    idx = list(range(n))
    yield idx
    yield idx[::-1]
    for k in range(how_many - 2):
        step = [s for s in range(3, 200) if math.gcd(s, n) == 1][k] if n > 1 else 1
        yield [(i * step) % n for i in idx]


def run_hybrid(case, ctx):
    from seyfert.notebook_helpers import table_helpers as th
    opts = opts_of(case["opts"])
    rs = rows(opts, case["bins"])
    keys = ["fisher", "n_sp_bins"] + [k for k, _ in opts]
    four = {tuple(r[k] for k in keys): r for r in rs}
    want = {}
    for r in rs:
        src = r
        if "GCsp(Pk)" in r["fisher"] and r["n_sp_bins"] != 4:
            src = four[tuple(4 if k == "n_sp_bins" else r[k] for k in keys)]
        want[tuple(r[k] for k in keys)] = {e: src[e] for e in ERR}
    for order in orders_of(len(rs), case["orders"]):
        with ctx.scratch() as d, ctx.guard("hybrid", str(case)):
            df = frame([rs[i] for i in order])
            f = d / "table.xlsx"
            if order[0] == 0 and len(rs) < 60:
                df.to_excel(f, index=False)
                tables = [th.load_and_setup_table(f), df]
            else:
                tables = [df]
            th.replace_hybrid_fishers_with_4_bins_equivalents(df)
            for t in tables:
                got = {tuple(r[k] for k in keys): {e: r[e] for e in ERR} for r in records(t)}
                ctx.check(len(t) == len(rs) and set(got) == set(want) and all(same(got[k][e], want[k][e]) for k in want for e in ERR), "hybrid",
                          lambda: f"{case}: {[k for k in want if k not in got or any(not same(got[k][e], want[k][e]) for e in ERR)][:3]}")
                ctx.step()
        ctx.state((tuple(case["bins"]), case["opts"], tuple(order)))
    ctx.trace()


def indexed(rs, idx):
    return frame(rs).set_index(list(idx)).sort_index()


def run_choice(case, ctx):
    from seyfert.notebook_helpers import table_helpers as th
    names = [F[i] for i in case["fishers"]]
    for mask in (0, 1, 3):
        for bins in ((4,), BINS):
            opts = opts_of(mask)
            rs = rows(opts, bins)
            rs = [rs[i] for i in list(orders_of(len(rs), 3))[2]]
            df = frame(rs)
            before = df.copy()
            with ctx.guard("choice", f"{case} {mask} {bins}"):
                got = th.get_subdf_for_fishers(df, ordered_names=list(names))
                want = [r for r in rs if r["fisher"] in names]
                ctx.check(equal_rows([{k: r[k] for k in want[0]} for r in records(got)], want), "choice", lambda: f"{names}: {len(got)} rows")
                ctx.check(list(got["fisher"].cat.categories) == names and got["fisher"].cat.ordered, "choice-order", lambda: f"{names}: {list(got['fisher'].cat.categories)}")
                got = th.get_subdf_for_fishers(df, ordered_names=list(names), sort_by=["fisher", "n_sp_bins"] + [k for k, _ in opts])
                want = sorted(want, key=lambda r: tuple([names.index(r["fisher"]), r["n_sp_bins"]] + [r[k] for k, _ in opts]))
                ctx.check(equal_rows([{k: r[k] for k in want[0]} for r in records(got)], want), "choice-sorted", lambda: f"{names}: {got['fisher'].tolist()}")
                ind = indexed(rs, ["fisher", "n_sp_bins"] + [k for k, _ in opts])
                got = th.get_subdf_for_fishers(ind, ordered_names=list(names), reset_index=True, sort_by=["fisher", "n_sp_bins"] + [k for k, _ in opts])
                ctx.check(equal_rows([{k: r[k] for k in want[0]} for r in records(got)], want), "choice-indexed", lambda: f"{names}: {got['fisher'].tolist()}")
                ctx.raises(KeyError, lambda: th.get_subdf_for_fishers(df, ordered_names=list(names) + ["[Void]"]), "choice-missing", f"{names}")
                ctx.step(3)
                # figures of merit
                for ref in names:
                    for mins in ([n for n in names if n != ref], [names[-1]]):
                        if not mins:
                            continue
                        dfom = {m: ref for m in mins}
                        for single in ((False, True) if len(bins) == 1 and not opts else (False,)):
                            t = df.drop(columns=["n_sp_bins"]) if single else df
                            got = th.get_fom_table_for_fishers(t, list(names), dict(dfom))
                            idx = ["fisher"] + ([] if single else ["n_sp_bins"]) + [k for k, _ in opts]
                            by = {tuple(r[k] for k in idx): r for r in rs}
                            exp = []
                            for r in want:
                                x = {k: r[k] for k in idx}
                                x["FoM"] = r["FoM"]
                                dlt = float("nan"), float("nan")
                                if r["fisher"] in dfom:
                                    o = by[tuple(ref if k == "fisher" else r[k] for k in idx)]["FoM"]
                                    dlt = r["FoM"] - o, 100 * (r["FoM"] - o) / o
                                x["Delta FoM"], x["Delta FoM (%)"] = dlt
                                x.update({e: r[e] for e in ERR[1:]})
                                exp.append(x)
                            g = records(got.reset_index())
                            ctx.check(len(g) == len(exp) and all(set(a) == set(b) and all(close(a[k], b[k]) for k in b) for a, b in zip(g, exp)), "fom",
                                      lambda: f"{names} {ref} {mins} {single}: {g[:2]} for {exp[:2]}")
                            ctx.check(list(got.columns) == ["FoM", "Delta FoM", "Delta FoM (%)"] + list(ERR[1:]), "fom-columns", lambda: f"{list(got.columns)}")
                            ctx.step()
            ctx.check(df.equals(before), "choice-left", "the table changed")
            ctx.state((tuple(names), mask, bins))
    ctx.trace()


def close(a, b):
    if isinstance(a, float) and isinstance(b, float):
        return (math.isnan(a) and math.isnan(b)) or abs(a - b) <= 1e-9 * (1 + abs(a) + abs(b))
    return a == b


def run_diff(case, ctx):
    from seyfert.notebook_helpers import table_helpers as th
    opts = opts_of(case["opts"])
    rs = rows(opts, BINS[:2], n=bool(case["bins"]))
    idx = ["fisher"] + (["n_sp_bins"] if case["bins"] else []) + [k for k, _ in opts]
    by = {tuple(r[k] for k in idx): r for r in rs}
    for inplace in (True, False):
        df = frame([rs[i] for i in list(orders_of(len(rs), 3))[2]])
        with ctx.guard("indices", str(case)):
            ret = th.set_results_indices(df, inplace=inplace)
            t = df if inplace else ret
            ctx.check((ret is None) == inplace and list(t.index.names) == [k for k in ALL_INDEX if k in idx], "indices", lambda: f"{case}: {t.index.names}")
            ctx.check(records(t.reset_index()) and {tuple(r[k] for k in idx): r["h"] for r in records(t.reset_index())} == {k: r["h"] for k, r in by.items()}, "indices-rows", str(case))
            if not inplace:
                ctx.check(list(df.columns) == idx + list(ERR), "indices-left", str(case))
    full = indexed(rs, idx)
    reverse = {f: i for i, f in enumerate(F)}
    parts = [full, full.iloc[::-1], full.iloc[sorted(range(len(full)), key=lambda i: (i * (7 + 4 * reverse[full.index[i][0] if len(idx) > 1 else full.index[i]])) % 31)]]
    parts += ([full.loc[list(F[:2])], full.loc[[F[3], F[0]]]] if len(idx) > 1 else [])
    for part in parts:
        there = [f for f in F if f in set(part.index.get_level_values(0))]
        for ref in there:
            for fn, what in ((th.compute_percentage_differences_table, "perc"), (th.compute_simple_differences_table, "simple")):
                for mins in ([None] if len(idx) > 1 else []) + [list(c) for k in range(1, len(there) + 1) for c in itertools.combinations(there, k)]:
                    with ctx.guard("diff", f"{case} {ref} {mins} {what}"):
                        got = fn(part, ref_fisher=ref) if mins is None else fn(part, ref_fisher=ref, minuend_fishers=list(mins))
                        exp = {}
                        for k, r in by.items():
                            if k[0] in (there if mins is None else mins):
                                o = by[(ref,) + k[1:]]
                                exp[k] = {e: (100 * (r[e] - o[e]) / o[e] if what == "perc" else r[e] - o[e]) for e in ERR}
                        g = {(k if isinstance(k, tuple) else (k,)): r for k, r in zip(got.index, records(got))}
                        ctx.check(set(g) == set(exp) and all(close(float(g[k][e]), float(exp[k][e])) for k in exp for e in ERR) and len(got) == len(exp), "diff",
                                  lambda: f"{case} {ref} {mins} {what}: {list(g)[:3]} for {list(exp)[:3]}")
                        ctx.check(got.index.names[0] == "fisher", "diff-name", lambda: f"{got.index.names}")
                        ctx.step()
            ctx.state((case["opts"], case["bins"], ref, tuple(there)))
    if len(idx) == 1:
        ctx.raises(Exception, lambda: th.compute_percentage_differences_table(full, ref_fisher=F[0]), "diff-none", "no matrices to compare")
    mixed = frame(rs)
    mixed["text"] = "a"
    with ctx.guard("numeric", str(case)):
        want = [c for c in mixed.columns if c not in ("fisher", "text", "scenario", "shot_noise_sp_reduced", "gcph_minus_gcsp", "gcph_only_bins_in_spectro_range")]
        ctx.check(list(th.drop_not_numeric_columns(mixed).columns) == want, "numeric", lambda: f"{list(th.drop_not_numeric_columns(mixed).columns)} for {want}")
    ctx.trace()


ROWS_ALIAS = re.compile(r"\\multirow\{[^}]*\}\{[^}]*\}\{(.*)\}$")


def number(cell):
    """value of a cell of a LaTeX table, its decimals, sign mark and whether it is a percentage"""
    c = cell.strip()
    mark = None
    m = re.match(r"^\\(positive|negative)\{(.*)\}$", c)
    if m:
        mark, c = m.groups()
    if c == r"\text{--}":
        return 0.0, 2, None, True
    pct = c.endswith(r"\%")
    c = c[:-2] if pct else c
    return float(c), len(c.split(".")[1]) if "." in c else 0, mark, pct


def run_latex(case, ctx):
    from seyfert.notebook_helpers import table_helpers as th
    part = case["part"]
    for bins in ((4,), (4, 12)):
        for names in (list(F), [F[2], F[0]]):
            rs = rows([], bins)
            if part == 1:
                rs = [dict(r, FoM=100.0) for r in rs]
            if part == 2:
                rs = [dict(r, FoM=10.0 + 0.04 * i) for i, r in enumerate(rs)]
            t = th.get_fom_table_for_fishers(frame(rs), list(names), {n: names[-1] for n in names})
            if part == 3:
                t = t.drop(columns=["Delta FoM", "Delta FoM (%)"])
            with ctx.scratch() as d, ctx.guard("latex", f"{case} {bins} {names}"):
                f = d / "t.tex"
                text = th.write_latex_table(t, filepath=f, caption="A caption", label="tab:x")
                ctx.check(f.read_text() == text, "latex-file", "the file is not the text")
                ctx.check(th.write_latex_table(t, filepath=str(f), ret_text=False, caption="A caption", label="tab:x") is None and f.read_text() == text, "latex-noret", "")
                ctx.check("A caption" in text and "tab:x" in text, "latex-caption", "")
                lines = [ln for ln in text.splitlines() if ln.rstrip().endswith(r"\\")]
                head = [c.strip() for c in lines[0].rstrip()[:-2].split("&")]
                alias = {"FoM": r"\FoM", "Omm": r"\Omm", "h": r"\h", "w0": r"\wz", "Delta FoM": r"Delta \FoM", "Delta FoM (%)": r"Delta \FoM (\%)"}
                ctx.check([c for c in head if c] == [alias[c] for c in t.columns], "latex-head", lambda: f"{head}")
                body = [ln for ln in lines if re.search(r"&\s*(4|12)\s*&", ln)]
                ctx.check(len(body) == len(t), "latex-rows", lambda: f"{len(body)} rows for {len(t)}")
                last = None
                for ln, ((fisher, b), row) in zip(body, t.iterrows()):
                    cells = [c.strip() for c in ln.rstrip()[:-2].split("&")]
                    m = ROWS_ALIAS.match(cells[0])
                    name = m.group(1) if m else cells[0]
                    last = name or last
                    ctx.check(last == ALIAS[fisher] and int(cells[1]) == b, "latex-label", lambda: f"{cells[:2]} for {fisher} {b}")
                    for col, cell in zip(t.columns, cells[2:]):
                        v = float(row[col])
                        got, dec, mark, pct = number(cell)
                        want_dec = 2 if "FoM" in col else 4
                        ctx.check(abs(got - v) <= 0.5000001 * 10 ** -want_dec and dec == want_dec and pct == ("%" in col), "latex-value", lambda: f"{fisher} {b} {col}: {cell} for {v}")
                        if "Delta" in col and not cell.startswith("\\text"):
                            plain = re.sub(r"^\\(positive|negative)\{", "", cell)
                            ctx.check(plain[:1] == ("+" if v >= 0 else "-"), "latex-sign", lambda: f"{fisher} {b} {col}: {cell} for {v}")
                        if "%" in col and abs(v) > 0.005:
                            ctx.check(mark == ("positive" if v > 0 else "negative"), "latex-mark", lambda: f"{fisher} {b} {col}: {cell}")
                        ctx.eval()
                ctx.state((part, bins, tuple(names)))
                ctx.step()
    ctx.trace()


def run_rows(case, ctx):
    from seyfert.notebook_helpers import table_helpers as th
    for f in F:
        for nb in (None, 12):
            for fom, ref in ((10.0, None), (10.0, 8.0), (10.0, 20.0), (10.0, 10.0), (7.123, 7.1)):
                for k in range(0, 4):
                    r = {} if nb is None else {"nbins": nb}
                    r.update(fisher=f, FoM=fom)
                    errs = [(e, 0.0123 * (i + 1)) for i, e in enumerate(("Omm", "h", "ns")[:k])]
                    r.update(errs)
                    with ctx.guard("row", f"{r} {ref}"):
                        for fmt, nd in ((None, 4), ("%.6f", 6)):
                            got = th.get_latex_row(pd.Series(r, dtype=object), ref_fom=ref, **({} if fmt is None else {"float_fmt": fmt}))
                            if not ctx.check(got.rstrip().endswith(r"\\"), "row-end", got):
                                continue
                            cells = [c.strip() for c in got.rstrip()[:-2].split("&")]
                            want = ([] if nb is None else ["12"]) + [TEX[f], f"{fom:.2f}"]
                            want += ["--" if ref is None else None] + [f"{v:.{nd}f}" for _, v in errs]
                            if not errs:
                                cells = [c for c in cells if c]
                            ok = len(cells) == len(want) and all(w is None or c == w for c, w in zip(cells, want))
                            if ok and ref is not None:
                                c = cells[len(want) - len(errs) - 1]
                                m = re.fullmatch(r"([+-])(\d+\.\d\d)\\%", c)
                                v = 100 * (fom - ref) / ref
                                ok = bool(m) and abs(float(m.group(1) + m.group(2)) - v) <= 0.00501 and (v == 0 or (m.group(1) == "-") == (v < 0))
                            ctx.check(ok, "row", f"{r} ref {ref}: {got}")
                            ctx.step()
                    ctx.state((f, nb, fom, ref, k))
    ctx.trace()


def run_excel(case, ctx):
    from seyfert.notebook_helpers import table_helpers as th
    for mask in (0, 3):
        opts = opts_of(mask)
        idx = ["fisher", "n_sp_bins"] + [k for k, _ in opts]
        t = indexed(rows(opts), idx)
        with ctx.scratch() as d, ctx.guard("excel", str(mask)):
            for arg in (str(d / "a.xlsx"), d / "b.xlsx"):
                th.write_excel_table(t, arg)
                got = pd.read_excel(arg, index_col=list(range(len(idx))))
                ctx.check(list(got.index.names) == idx and list(got.columns) == list(t.columns) and list(got.index) == list(t.index)
                          and np.allclose(got.to_numpy(), t.to_numpy(), rtol=1e-12), "excel", lambda: f"{got.head()}")
                was = (d / "a.xlsx").read_bytes()
                ctx.raises(FileExistsError, lambda: th.write_excel_table(t * 2, arg), "excel-exists", f"{arg}")
                ctx.check((d / "a.xlsx").read_bytes() == was, "excel-kept", "an existing table was overwritten")
                th.write_excel_table(t * 2, arg, overwrite=True)
                got = pd.read_excel(arg, index_col=list(range(len(idx))))
                ctx.check(np.allclose(got.to_numpy(), 2 * t.to_numpy(), rtol=1e-12), "excel-over", "")
                th.write_excel_table(t, d / "a.xlsx", overwrite=True)
                ctx.step(3)
            ctx.state(mask)
    ctx.trace()


def run_bars(case, ctx):
    import matplotlib.pyplot as plt
    from matplotlib.colors import to_rgba
    from seyfert.notebook_helpers.barplots import ErrorBarPlotter
    rs = rows([])
    by = {(r["fisher"], r["n_sp_bins"]): r for r in rs}
    n = case["bins"]
    tex = {"FoM": r"$\mathrm{FoM}/\mathrm{FoM_{max}}$", "Omm": r"$\Omega_m$", "h": "$h$", "w0": "$w_0$"}
    df = frame(rs)
    before = df.copy()
    pl = ErrorBarPlotter(df)
    for k in range(1, 4):
        for names in itertools.permutations(F, k):
            for usetex in (True, False):
                with ctx.guard("bars", f"{names} {n}"):
                    top = max(by[(f, n)]["FoM"] for f in names)
                    want = {(e, f): (by[(f, n)][e] / top if e == "FoM" else by[(f, n)][e]) for e in ERR for f in names}
                    sub = pl.sliceResultsForFishersAndNbins(list(names), n)
                    ctx.check(list(sub.index) == list(names) and all(close(float(sub.loc[f, e]), want[(e, f)]) for e, f in want), "bars-slice", lambda: f"{names}: {sub}")
                    fig, ax0 = plt.subplots()
                    ax = pl.doSingleErrorBarPlot(list(names), n, ax=ax0, usetex=usetex)
                    ctx.check(ax is ax0, "bars-axes", "")
                    fig.canvas.draw()
                    labels = [t.get_text() for t in ax.get_yticklabels()]
                    ticks = list(ax.get_yticks())
                    name_of = {v: e for e, v in tex.items()} if usetex else {e: e for e in ERR}
                    ctx.check(sorted(labels) == sorted(name_of), "bars-labels", lambda: f"{labels}")
                    leg = ax.get_legend()
                    ctx.check([t.get_text() for t in leg.get_texts()] == [f"${TEX[f]}$" for f in names], "bars-legend", lambda: f"{[t.get_text() for t in leg.get_texts()]}")
                    colors = {tuple(np.round(to_rgba(h.get_facecolor()), 9)): f for h, f in zip(leg.legend_handles, names)}
                    got = {}
                    for p in ax.patches:
                        y = p.get_y() + p.get_height() / 2
                        i = int(np.argmin([abs(y - t) for t in ticks]))
                        f = colors.get(tuple(np.round(to_rgba(p.get_facecolor()), 9)))
                        if labels[i] in name_of:
                            got[(name_of[labels[i]], f)] = float(p.get_width())
                    ctx.check(len(ax.patches) == len(want) and set(got) == set(want) and all(close(got[x], float(want[x])) for x in want), "bars", lambda: f"{names}: {got} for {want}")
                    ctx.check(ax.get_xscale() == "log" and any(str(n) in t.get_text() for t in ax.texts), "bars-text", "")
                    plt.close(fig)
                    ctx.step()
            ctx.state((names, n))
    for m in BINS:
        if m != n:
            with ctx.guard("bars-pair", f"{n} {m}"):
                fig, axs = pl.doPairErrorBarPlot(list(F[:3]), n, m)
                for ax, b in zip(axs, (n, m)):
                    w = sorted([by[(f, b)][e] for e in ERR[1:] for f in F[:3]] + [by[(f, b)]["FoM"] / max(by[(g, b)]["FoM"] for g in F[:3]) for f in F[:3]])
                    ctx.check(np.allclose(sorted(p.get_width() for p in ax.patches), w, rtol=1e-9), "bars-pair", f"{n} {m}: panel of {b}")
                ctx.check(axs[0].get_legend() is not None and axs[1].get_legend() is None, "bars-pair-legend", "")
                plt.close(fig)
                ctx.step()
    ctx.check(df.equals(before), "bars-left", "the table changed")
    ctx.check(close(float(pl.df.loc[(F[0], n), "FoM"]), by[(F[0], n)]["FoM"]), "bars-left", "the plotter's table changed")
    ctx.trace()


def run_gains(case, ctx):
    import matplotlib.pyplot as plt
    from seyfert.notebook_helpers import fom_gain_plots as fg, table_helpers as th
    opts = opts_of(2)
    rs = rows(opts)
    by = {(r["fisher"], r["n_sp_bins"], r["shot_noise_sp_reduced"]): r for r in rs}
    t = frame(rs).set_index(["fisher", "shot_noise_sp_reduced", "n_sp_bins"]).sort_index()
    for ref in F:
        diff = th.compute_percentage_differences_table(t, ref_fisher=ref)
        want = {(f, red): [100 * (by[(f, b, red)]["FoM"] - by[(ref, b, red)]["FoM"]) / by[(ref, b, red)]["FoM"] for b in BINS] for f in F for red in (False, True)}
        for f in F:
            for red in (False, True):
                for label in (None, "mine"):
                    with ctx.guard("gain", f"{ref} {f} {red}"):
                        fig, ax0 = plt.subplots()
                        gain, ax = fg.single_plot_fom_gain(diff, f, red, ax0, label=label)
                        ctx.check(len(ax.lines) == 1 and list(ax.lines[0].get_xdata()) == list(BINS) and np.allclose(ax.lines[0].get_ydata(), want[(f, red)]), "gain",
                                  lambda: f"{ref} {f} {red}: {ax.lines[0].get_ydata()}")
                        ctx.check(list(gain.index) == list(BINS) and np.allclose(gain.to_numpy(), want[(f, red)]), "gain-data", f"{ref} {f} {red}")
                        ctx.check(ax.lines[0].get_label() == (label or f"${TEX[f]}$"), "gain-label", lambda: ax.lines[0].get_label())
                        plt.close(fig)
                        ctx.step()
        for k in (1, 2, 3):
            for mins in itertools.permutations(F, k):
                with ctx.guard("gains", f"{ref} {mins}"):
                    fig, axs = fg.comparison_plot_fom_gain(diff, ref, list(mins), logscale=False)
                    for ax, red in zip(axs, (False, True)):
                        ctx.check(len(ax.lines) == k and all(np.allclose(ln.get_ydata(), want[(f, red)]) and ln.get_label() == f"${TEX[f]}$" for ln, f in zip(ax.lines, mins)), "gains",
                                  f"{ref} {mins} {red}")
                    plt.close(fig)
                    ctx.step()
                ctx.state((ref, mins))
    ctx.trace()


def run_grid(case, ctx):
    import matplotlib.pyplot as plt
    from seyfert.plot_utils import cl_plot as cp
    ni, nj = case["shape"]
    x = np.linspace(1.0, 9.0, 5)
    y = np.array([[[math.sin(1 + 3 * i + 5 * j + k) for k in range(5)] for j in range(nj)] for i in range(ni)])
    for tri in ((False, True) if ni == nj else (False,)):
        for log in (False, True):
            with ctx.guard("grid", f"{case} {tri} {log}"):
                fig, axes = cp.grid_plot(x=x, y=y, label="mine", triangular=tri, logx=log)
                ctx.check(np.shape(axes) == (ni, nj), "grid-shape", lambda: f"{np.shape(axes)}")
                for i in range(ni):
                    for j in range(nj):
                        ax = axes[i, j]
                        if tri and i < j:
                            ctx.check(not ax.lines and not ax.axison, "grid-upper", f"{i} {j}")
                        else:
                            ctx.check(len(ax.lines) == 1 and np.allclose(ax.lines[0].get_xdata(), x) and np.allclose(ax.lines[0].get_ydata(), y[i, j]), "grid", f"{case} {i} {j}")
                            ctx.check(ax.get_xscale() == ("log" if log else "linear"), "grid-scale", f"{i} {j}")
                if ni == nj:
                    fig2, axes = cp.grid_plot(x=x, y=2 * y, axes=axes, label="second", triangular=tri)
                    ctx.check(all(len(axes[i, j].lines) == 2 and np.allclose(axes[i, j].lines[1].get_ydata(), 2 * y[i, j]) for i in range(ni) for j in range(i + 1)), "grid-again", f"{case}")
                plt.close("all")
                ctx.step()
            ctx.state((ni, nj, tri, log))
    if ni != nj:
        ctx.raises(Exception, lambda: cp.grid_plot(x=x, y=y, triangular=True), "grid-triangular", "a triangle of an oblong set")
        plt.close("all")
    else:
        data = [np.transpose(y, (2, 0, 1)), 3 * np.transpose(y, (2, 0, 1))]
        for lo in range(ni):
            for hi in range(lo, ni):
                with ctx.guard("cl_plot", f"{case} {lo} {hi}"):
                    fig, axes = cp.cl_plot([x, x + 1], data, ["a", "b"], i_min=lo, j_min=lo, i_max=hi, j_max=hi)
                    for i in range(lo, hi + 1):
                        for j in range(lo, hi + 1):
                            ax = axes[i - lo, j - lo]
                            if i < j:
                                ctx.check(not ax.lines, "cl-upper", f"{i} {j}")
                            else:
                                ok = len(ax.lines) == 2 and all(np.allclose(ln.get_xdata(), x + k) and np.allclose(ln.get_ydata(), data[k][:, i, j]) and ln.get_label() == "ab"[k]
                                                                for k, ln in enumerate(ax.lines))
                                ctx.check(ok, "cl", f"{case} {lo} {hi}: {i} {j}")
                    plt.close(fig)
                    ctx.step()
    ctx.trace()


def run_case(case, ctx):
    init()
    {"select": run_select, "hybrid": run_hybrid, "choice": run_choice, "diff": run_diff, "latex": run_latex, "rows": run_rows, "excel": run_excel,
     "bars": run_bars, "gains": run_gains, "grid": run_grid}[case["kind"]](case, ctx)

"""C19: scenario data are selected, converted, extended and interpolated faithfully."""
import importlib.util
import itertools
from fractions import Fraction as F

import numpy as np
import pandas as pd

from . import check_c16, harness
from . import sym as S
from . import values as VL
from .sym import const, eq, le

COLS = list(range(2010, 2101, 10))
TABLE = check_c16.table(True)
TARGETS = check_c16.TARGETS


def table_name(path):
    name = str(path).replace("\\", "/")
    return "B.csv" if name.endswith("/B/A.csv") else name.split("/")[-1]


def data_modules():
    import sys

    return [m for n, m in sys.modules.items() if n.startswith("mimosa.common.data")]


def fresh_store_class():
    """The data store as it is at the start of a session: nothing cached yet."""
    import mimosa.common.data.datastore as ds

    spec = importlib.util.spec_from_file_location("mimosa.common.data.datastore", ds.__file__)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    return mod, mod.DataStore


# ------------------------------------------------------------------ the documented result


def extension(years, until):
    """Rows of the linear map from the data to data + decadal extension: growth falls to 0 in 50 years."""
    n = len(years)
    rows = [np.eye(n)[i] for i in range(n)]
    g = (rows[-1] - rows[-2]) / (years[-1] - years[-2])
    out_years, prev, val = list(years), years[-1], rows[-1]
    for t in range(2110, until, 10):
        val = val + g * max(0.0, 1 - (prev - 2100) / 50) * (t - prev)
        rows.append(val)
        out_years.append(t)
        prev = t
    return np.array(out_years, float), np.array(rows)


def spline_weights(x, at):
    """Weights of the not-a-knot cubic spline through (x_i, y_i), evaluated at the given points."""
    n = len(x)
    h = np.diff(x)
    A, B = np.zeros((n, n)), np.zeros((n, n))  # A m = B y, m: second derivatives
    for i in range(1, n - 1):
        A[i, i - 1], A[i, i], A[i, i + 1] = h[i - 1], 2 * (h[i - 1] + h[i]), h[i]
        B[i, i - 1], B[i, i], B[i, i + 1] = 6 / h[i - 1], -6 / h[i - 1] - 6 / h[i], 6 / h[i]
    A[0, 0], A[0, 1], A[0, 2] = h[1], -(h[0] + h[1]), h[0]
    A[-1, -1], A[-1, -2], A[-1, -3] = h[-2], -(h[-2] + h[-1]), h[-1]
    M = np.linalg.solve(A, B)
    W = []
    for t in at:
        i = int(min(max(np.searchsorted(x, t, side="right") - 1, 0), n - 2))
        a, b, hi = x[i + 1] - t, t - x[i], h[i]
        e = np.eye(n)
        W.append(M[i] * (a**3 / (6 * hi) - a * hi / 6) + M[i + 1] * (b**3 / (6 * hi) - b * hi / 6) + e[i] * a / hi + e[i + 1] * b / hi)
    return np.array(W)


_memo, _kmemo = {}, {}


def weights(years, at):
    key = (tuple(years), tuple(at))
    if key not in _memo:
        until = int(max(2260, max(at) + 10))
        until += -until % 10
        xs, ext = extension(list(years), until)
        _memo[key] = spline_weights(xs, at) @ ext
    return _memo[key]


def horizon(t):
    """Years of the model's periods."""
    s, e, d = t["start"], t["end"], t["dt"]
    n = int(-((-(F(e) - F(s)) / F(d)) // 1)) + 1
    return [float(F(s) + k * F(d)) for k in range(n)]


def factor(unit, target):
    d, f = TABLE[unit] if unit in TABLE else TARGETS[unit]
    if target is None:
        return F(1)
    td, tf = TARGETS[target]
    assert d == td, (unit, target)
    return f / tf


MAX = S.var("largest value")


def same(got, cells, years, k, at):
    """Condition: got[i] is the documented value at year at[i] (up to rounding) for all data."""
    key = (tuple(years), tuple(at), k)
    if key not in _kmemo:
        _kmemo[key] = [[const(F(float(w)) * k) for w in row] for row in weights(years, at)]
    out = []
    for g, row in zip(got, _kmemo[key]):
        want = const(0)
        for c, w in zip(cells, row):
            want = S.add(want, S.mul(S.lift(c), w))
        d = S.sub(S.lift(g), want)
        tol = S.mul(MAX, const(k * F(1, 10**5)))
        out += [le(d, tol), le(S.neg(tol), d)]
    return S.and_(*out)


def box(cells):
    return [S.lt(const(0), MAX)] + [b for c in cells if isinstance(c, S.Sym) for b in (le(S.neg(MAX), c), le(c, MAX))]


def check(prop, tier):
    h = harness.Harness(prop, tier, "The data store reads tables whose value cells (and, for the selection, key cells) are symbols; scipy's interpolators are applied through their response to unit "
                        "vectors; every path's result is compared with an independent linear operator (selection, conversion, extension, not-a-knot spline) for all cell values by linear queries.")
    from mimosa.common.config import parseconfig as pc

    real_read = pd.read_csv

    # ------------------------------------------------ which row is selected
    def params_for(variables, regions, time, ssp="SSP2"):
        return {"input": {"variables": variables}, "regions": {r: {} for r in regions}, "time": dict(time), "SSP": ssp}

    def info(model="M", scenario="S", variable="V", unit=None, file="inputdata/data/A.csv"):
        d = {"variable": variable, "scenario": scenario, "model": model, "file": file}
        if unit:
            d["unit"] = unit
        return d

    def run(tables, *stores):
        """Build the given stores one after another in a fresh session; the last one is returned."""
        mod, Store = fresh_store_class()

        def read(path, *a, **k):
            name = table_name(path)
            if name not in tables:
                raise FileNotFoundError(name)
            t = tables[name]
            return (t() if callable(t) else t).copy()

        with harness.patched([(pd, "read_csv", read)]), VL.interpolators(mod), VL.shims(mod, *data_modules()):
            for p in stores[:-1]:
                Store(p)
            st = Store(stores[-1])
            t = stores[-1]["time"]
            return {v: {r: [st.interp_data(y, r, v) for y in horizon(t)] for r in stores[-1]["regions"]} for v in stores[-1]["input"]["variables"]}

    short = {"start": 2020, "end": 2100, "dt": 20}
    two_cols = COLS
    for nrows in (1, 2) if not h.thorough else (0, 1, 2, 3):
        keys = [{c: VL.Tok(f"{c.lower()} of row {i}") for c in ("Model", "Scenario", "Region", "Variable")} for i in range(nrows)]
        cells = [[S.var(f"cell {i} {y}") for y in two_cols] for i in range(nrows)]
        if nrows == 3:  # keep the number of paths in bounds: two keys of the third row are the wanted ones
            keys[2]["Model"], keys[2]["Variable"] = "M", "V"
        for region in ("R", "R#"):
            want = {"Model": "M", "Scenario": "S", "Region": "R", "Variable": "V"}

            def table():
                d = {c: pd.Series([k[c] for k in keys], dtype=object) for c in want}
                d["Unit"] = pd.Series(["GtCO2/yr"] * nrows, dtype=object)
                for j, y in enumerate(two_cols):
                    d[str(y)] = pd.Series([c[j] for c in cells], dtype=object)
                return pd.DataFrame(d)

            paths = h.explore(lambda: run({"A.csv": table}, params_for({"v": info()}, [region], short)), label=f"selection among {nrows} rows")
            h.holds("selection", f"selection among {nrows} rows: no result", bool(paths))
            match = [S.and_(*[S._lb(k[c] == w) if isinstance(k[c], VL.Tok) else S.bconst(k[c] == w) for c, w in want.items()]) for k in keys]
            for res, exc, pcond, _ in paths:
                if isinstance(exc, S.NeedFloat):
                    h.rep.undecided(f"selection: {harness.exc_text(exc)}")
                    continue
                only = [S.and_(match[i], *[S.not_(match[j]) for j in range(nrows) if j != i]) for i in range(nrows)]

                def real(env, region=region):
                    return _real_selection(h, keys, env, region, two_cols, want, params_for({"v": info()}, [region], short), run)
                if exc is not None:
                    h.prove("selection", f"{nrows} rows, region {region}: an error ({harness.exc_text(exc)}) although exactly one row matches", pcond, S.not_(S.or_(*only)) if only else S.bconst(True), real)
                    continue
                h.prove("selection", f"{nrows} rows, region {region}: a result although not exactly one row matches", pcond, S.or_(*only) if only else S.bconst(False), real)
                got = res["v"][region]
                goal = [S.implies(only[i], same(got, cells[i], two_cols, F(1), horizon(short))) for i in range(nrows)]
                h.prove("selection", f"{nrows} rows, region {region}: the values of the matching row", pcond + box(sum(cells, [])), S.and_(*goal), real)

    # ------------------------------------------------ histories
    def row_cells(f, m, s, r, v):
        return [S.var(f"{f} {m} {s} {r} {v} {y}") for y in COLS]

    def full_table(f, plain=None):
        rows = []
        for m, s, r, v in itertools.product(("M", "M2"), ("S", "S2"), ("R", "Q"), ("V", "V2")):
            cs = row_cells(f, m, s, r, v)
            rows.append([m, s, r, v, "Mt CO2/yr"] + [VL.concrete(c, plain) if plain is not None else c for c in cs])
        return pd.DataFrame({c: pd.Series([x[i] for x in rows], dtype=object if plain is None or i < 5 else float) for i, c in enumerate(["Model", "Scenario", "Region", "Variable", "Unit"] + [str(y) for y in COLS])})

    alt = {"model": "M2", "scenario": "S2", "variable": "V2", "unit": "MtCO2/year", "file": "inputdata/B/A.csv"}  # another file of the same name
    base = {"model": "M", "scenario": "S", "variable": "V", "unit": "emissionsrate_unit", "file": "inputdata/data/A.csv"}
    grids = [short, {"start": 2015, "end": 2130, "dt": 15}]
    tables = {f: (lambda f=f: full_table(f)) for f in ("A.csv", "B.csv")}
    patterns = []
    for n in range(len(alt) + 1):
        for which in itertools.combinations(alt, n):
            patterns.append(which)
    if not h.thorough:
        patterns = [p for p in patterns if len(p) <= 2 or len(p) == len(alt)]
    def history(job):
        which, r1, r2, g1, g2 = job
        other = {**base, **{k: alt[k] for k in which}}
        steps = [params_for({"v": dict(base), "w": dict(other)}, r1, g1), params_for({"v": dict(other), "w": dict(base), "x": dict(base)}, r2, g2)]
        label = f"second model in a session differing in {', '.join(which) or 'nothing'}"
        paths = h.explore(lambda: run(tables, *steps), label=label)
        _compare(h, "history", label, paths, steps[-1], row_cells, lambda env: _real_history(run, full_table, steps, env))

    jobs = []
    for which in patterns:
        for r1, r2 in [(("R", "Q"), ("R", "Q"))] if which else [(("R",), ("Q", "R")), (("R#", "R"), ("R", "R#")), (("R", "Q"), ("R", "Q"))]:
            jobs += [("history", (which, r1, r2, g1, g2)) for g1, g2 in ((short, short), (grids[1], short))]

    # ------------------------------------------------ conversion, extension and interpolation
    units = [("Mt CO2/yr", "emissionsrate_unit"), ("billion US$2005/yr", "currency_unit"), ("million", "population_unit"), ("billion US$2010/yr", "currency_unit"), ("GtCO2/yr", None), ("kt CO2/day", "MtCO2/year")]
    if h.thorough:
        units += [(u, t) for t in ("emissionsrate_unit", "currency_unit", "population_unit") for u in sorted(TABLE) if TABLE[u][0] == TARGETS[t][0]]
    times = [{"start": 2020, "end": 2100, "dt": 5}, {"start": 2010, "end": 2100, "dt": 10}, {"start": 2020, "end": 2150, "dt": 7}, {"start": 2015, "end": 2300, "dt": 5}, {"start": 2021.5, "end": 2099, "dt": 2.25},
             {"start": 2100, "end": 2200, "dt": 20}, {"start": 2020, "end": 2021, "dt": 1}, {"start": 2010, "end": 2110, "dt": 0.5}]
    if h.thorough:
        times += [{"start": s, "end": e, "dt": d} for s in (2010, 2017, 2020, 2050, 2100) for e in (2101, 2113, 2150, 2200, 2250, 2299, 2300) for d in (0.5, 1, 2.5, 5, 10, 17, 20) if e > s]
    cells = [S.var(f"value {y}") for y in COLS]
    def conversion(job):
        (u, tgt), t = job
        tab = pd.DataFrame({"Model": ["M"], "Scenario": ["S"], "Region": ["R"], "Variable": ["V"], "Unit": [u], **{str(y): pd.Series([c], dtype=object) for y, c in zip(COLS, cells)}})
        p = params_for({"v": info(unit=tgt)}, ["R"], t)
        paths = h.explore(lambda: run({"A.csv": tab}, p), label=f"{u} to {tgt}, {t}")
        k = factor(u, tgt)
        h.witness(box(cells), "data")
        for res, exc, pcond, _ in paths:
            if isinstance(exc, S.NeedFloat):
                h.rep.undecided(f"values: {harness.exc_text(exc)}")
                continue
            text = f"data in {u} used in {tgt or 'their own unit'}, {t}"

            def real(env):
                num = tab.copy()
                for y, c in zip(COLS, cells):
                    num[str(y)] = [float(env.get(c.args[0], 1))]
                got = run({"A.csv": num}, p)["v"]["R"]
                want = weights(COLS, horizon(t)) @ np.array([float(env.get(c.args[0], 1)) for c in cells]) * float(k)
                scale = max(1e-300, max(abs(float(env.get(c.args[0], 1))) for c in cells) * float(k))
                bad = [(y, g, w) for y, g, w in zip(horizon(t), got, want) if abs(g - w) > 1e-6 * scale]
                return f"{text}: in {bad[0][0]} {bad[0][1]} instead of {bad[0][2]}" if bad else None
            if exc is not None:
                h.prove("values", f"{text}: {harness.exc_text(exc)}", pcond + box(cells), S.bconst(False), lambda env: _raises(real, env))
                continue
            h.prove("values", text, pcond + box(cells), same(res["v"]["R"], cells, COLS, k, horizon(t)), real, points=_ramps(cells))
            # exactly the data in the years of the data, and constant at the decades from 2150 on
            for y, g in zip(horizon(t), res["v"]["R"]):
                i = COLS.index(int(y)) if y in COLS else None
                if i is not None or y >= 2150 and y % 10 == 0:
                    if i is not None:
                        want = S.mul(cells[i], const(k))
                    else:
                        gr = S.div(S.sub(cells[-1], cells[-2]), const(10))
                        want = S.mul(S.add(cells[-1], S.mul(gr, const(10 * (F(1) + F(4, 5) + F(3, 5) + F(2, 5) + F(1, 5))))), const(k))
                    d, tol = S.sub(S.lift(g), want), S.mul(MAX, const(k * F(1, 10**7)))
                    h.prove("data points", f"{text}: value in {y}", pcond + box(cells), S.and_(le(d, tol), le(S.neg(tol), d)), real, points=_ramps(cells))

    jobs += [("conversion", ((u, tgt), t)) for (u, tgt), t in [(x, times[0]) for x in units] + [(units[0], x) for x in times[1:]]]

    # ------------------------------------------------ the data files of the repository, every scenario, variable and region
    what = {"GDP": "GDP|PPP", "emissions": "Emissions|CO2", "population": "Population"}
    unit_of = {"GDP": "currency_unit", "emissions": "emissionsrate_unit", "population": "population_unit"}
    time = {"start": 2020, "end": 2120, "dt": 20}
    texts = {}

    def symbolic_file(path):
        t = real_read(path)
        texts[str(path).split("/")[-1]] = t
        lc = {c: c.lower() for c in t.columns}
        t = t.copy()
        key = [c for c in t.columns if lc[c] in ("model", "scenario", "region", "variable")]
        for y in [c for c in t.columns if str(c).isdigit()]:
            t[y] = pd.Series([S.var(" ".join(str(v) for v in r) + f" {y}") for r in t[key].itertuples(index=False)], dtype=object)
        return t

    def data_file(job):
        ssp, sign = job
        p, _tree = pc.check_params({"SSP": ssp, "time": time}, True)
        p = pc.parse_param_values(p)
        regions = list(p["regions"])
        if not h.thorough and ssp != "SSP2":
            regions = regions[:3]
        p["regions"] = {r: {} for r in regions}

        def build():
            mod, Store = fresh_store_class()
            with harness.patched([(pd, "read_csv", symbolic_file)]), VL.interpolators(mod), VL.shims(mod, *data_modules()):
                st = Store(p)
                return {v: {r: [st.interp_data(y, r, v) for y in horizon(time)] for r in regions} for v in p["input"]["variables"]}

        # the sign of each growth rate would be forked over: fixed to one representative sign pattern per run, both runs together cover each series for both signs
        growth = []
        for r in regions:
            for v in what.values():
                a, b = (S.var(f"IMAGE {ssp}-Ref-SPA0-V17 {r} {v} {y}") for y in (2090, 2100))
                growth.append(S.lt(a, b) if sign > 0 else S.lt(b, a))
        paths = h.explore(build, growth, label=f"{ssp}")
        for res, exc, pcond, _ in paths:
            if isinstance(exc, S.NeedFloat):
                h.rep.undecided(f"{ssp}: {harness.exc_text(exc)}")
                continue
            if not h.holds("data files", f"{ssp}: {harness.exc_text(exc) if exc else ''}", exc is None):
                continue
            h.holds("data files", f"{ssp}: variables {sorted(res)}", set(res) == set(what))
            for v in what:
                for r in regions:
                    cs = [S.var(f"IMAGE {ssp}-Ref-SPA0-V17 {r} {what[v]} {y}") for y in COLS]
                    t = texts["data_IMAGE_SSP.csv"]
                    unit = t.loc[(t["Region"] == r) & (t["Variable"] == what[v]), "Unit"].iloc[0]
                    own = [g for g in growth + list(pcond) if S.variables(g) & {c.args[0] for c in cs}]
                    h.prove("data files", f"{ssp} {v} {r}", own + box(cs), same(res[v][r], cs, COLS, factor(unit, unit_of[v]), horizon(time)), lambda env, v=v, r=r: _real_file(build_real(p), v, r, what, texts, ssp, time, unit_of))

    jobs = [("data_file", (ssp, sign)) for ssp in ("SSP2", "SSP1", "SSP3", "SSP4", "SSP5") for sign in (1, -1)] + jobs
    h.parallel(jobs, lambda job: {"history": history, "conversion": conversion, "data_file": data_file}[job[0]](job[1]))
    return h.done(
        bounds=[f"tables of up to {2 if not h.thorough else 3} rows with arbitrary key texts; all cell values", f"{len(patterns)} patterns in which the second of two models built in a session can differ from the first (any subset of model, scenario, variable, unit, file; regions and grids), each with two series interleaved in the first model",
                f"{len(units)} unit pairs, {len(times)} time grids, all cell values; the five scenarios of the repository's data file with all their regions, all their series growing or all declining at the end"],
        outside=["data columns other than 2010, 2020, ..., 2100", "start years before the data begin (see C24)", "data files that change on disk during a session", "between two decades after 2150 the cubic spline stays within a fraction of the last change, not exactly constant"],
        assumptions=["scipy's interp1d (and equivalents) and numpy's interp are linear in the data (their response to unit vectors is computed by the real functions)", "tolerance 1e-5 (1e-7 at the data points) of the largest value of the series"])


def build_real(p):
    _mod, Store = fresh_store_class()
    return Store(p)


def _real_file(st, v, r, what, texts, ssp, time, unit_of):
    t = texts["data_IMAGE_SSP.csv"]
    row = t.loc[(t["Model"] == "IMAGE") & (t["Scenario"] == f"{ssp}-Ref-SPA0-V17") & (t["Region"] == r) & (t["Variable"] == what[v])]
    vals = row[[str(y) for y in COLS]].values[0].astype(float)
    k = float(factor(row["Unit"].iloc[0], unit_of[v]))
    want = weights(COLS, horizon(time)) @ vals * k
    for y, w in zip(horizon(time), want):
        g = st.interp_data(y, r, v)
        if abs(g - w) > 1e-6 * max(abs(vals)) * k:
            return f"{ssp}, {v}, {r}, {y}: {g} instead of {w}"
    return None


def _ramps(cells):
    out = []
    for last in (1.0, -1.0):
        out.append({c.args[0]: 10.0 + last * i * (1 + 0.1 * i) for i, c in enumerate(cells)})
    return out


def _raises(real, env):
    try:
        return real(env)
    except Exception as e:  # noqa: BLE001
        return harness.exc_text(e)


def _compare(h, key, label, paths, p, row_cells, real):
    for res, exc, pcond, _ in paths:
        if isinstance(exc, S.NeedFloat):
            h.rep.undecided(f"{label}: {harness.exc_text(exc)}")
            continue
        if exc is not None:
            h.prove(key, f"{label}: {harness.exc_text(exc)}", pcond, S.bconst(False), lambda env: _raises(real, env))
            continue
        for v, i in p["input"]["variables"].items():
            for r in p["regions"]:
                cs = row_cells(table_name(i["file"]), i["model"], i["scenario"], r.rstrip("#"), i["variable"])
                own = {c.args[0] for c in cs}  # fewer assumptions suffice: what the path says about this series
                h.prove(key, f"{label}: {v} of {r}", [c for c in pcond if S.variables(c) & own] + box(cs), same(res[v][r], cs, COLS, factor("Mt CO2/yr", i["unit"]), horizon(p["time"])), real, timeout=20000)


def _real_history(run, full_table, steps, env):
    def value(name):
        f, m, s, r, v, y = name.split(" ")
        x = env.get(name)
        return float(x) if x is not None else 1.0 + (hash((f, m, s, r, v)) % 97) + (int(y) - 2010) / 10.0

    class Env(dict):
        def get(self, k, d=None):
            return value(k)
    tabs = {f: full_table(f, Env()) for f in ("A.csv", "B.csv")}
    p = steps[-1]
    got = run(tabs, *steps)
    for v, i in p["input"]["variables"].items():
        for r in p["regions"]:
            vals = np.array([value(f"{table_name(i['file'])} {i['model']} {i['scenario']} {r.rstrip('#')} {i['variable']} {y}") for y in COLS])
            k = float(factor("Mt CO2/yr", i["unit"]))
            want = weights(COLS, horizon(p["time"])) @ vals * k
            for y, g, w in zip(horizon(p["time"]), got[v][r], want):
                if abs(g - w) > 1e-6 * max(1e-300, max(abs(vals)) * k):
                    return f"after building {steps[0]['input']['variables']} first, {v} = {i} of {r} in {y} is {g} instead of {w}"
    return None


def _real_selection(h, keys, env, region, cols, want, p, run):
    rows = []
    for i, k in enumerate(keys):
        rows.append([VL.concrete(k[c], env) for c in want] + ["GtCO2/yr"] + [float(env.get(f"cell {i} {y}", 10 * (i + 1) + n)) for n, y in enumerate(cols)])
    tab = pd.DataFrame(rows, columns=list(want) + ["Unit"] + [str(y) for y in cols])
    good = [r for r in rows if r[:4] == list(want.values())]
    try:
        got = run({"A.csv": tab}, p)["v"][region]
    except Exception as e:  # noqa: BLE001
        return f"rows {[r[:4] for r in rows]}: {harness.exc_text(e)}" if len(good) == 1 else None
    if len(good) != 1:
        return f"rows {[r[:4] for r in rows]}: gives {got} although {len(good)} rows match"
    w = weights(cols, horizon(p["time"])) @ np.array(good[0][5:])
    scale = max(abs(np.array(good[0][5:])))
    return f"rows {[r[:4] for r in rows]}: gives {got} instead of {w}" if max(abs(np.array(got) - w)) > 1e-6 * scale else None


_ = eq

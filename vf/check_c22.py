"""C22: the exported table and settings reproduce the solution."""
import copy
import csv
import glob
import json
import os
import re
import time
from fractions import Fraction as F

import pandas as pd
import pyomo.environ as pe
from pyomo.common.numeric_types import RegisterNumericType

from . import configs, harness
from . import model as M
from . import sym as S
from . import values as VL
from .sym import Sym, const, le

REL = F(1, 100000)  # the file has six significant digits: relative error 5e-6
UNITS = {  # what the documentation and the configuration say the values are in
    "regional_emissions": "emissionsrate_unit", "global_emissions": "emissionsrate_unit", "baseline": "emissionsrate_unit", "baseline_emissions": "emissionsrate_unit",
    "regional_emission_reduction": "emissionsrate_unit", "regional_emission_allowances": "emissionsrate_unit", "paid_for_emission_reductions": "emissionsrate_unit",
    "import_export_emission_reduction_balance": "emissionsrate_unit", "cumulative_emissions": "emissions_unit", "temperature": "degC_above_PI",
    "slr_thermal": "m", "slr_cumgsic": "m", "slr_cumgis": "m", "total_SLR": "m", "carbonprice": "currency_unit/emissionsrate_unit", "mitigation_costs": "currency_unit",
    "area_under_MAC": "currency_unit", "GDP_gross": "currency_unit", "GDP_net": "currency_unit", "investments": "currency_unit", "consumption": "currency_unit",
    "baseline_GDP": "currency_unit", "import_export_mitigation_cost_balance": "currency_unit", "rel_mitigation_costs": "fraction_of_GDP", "damage_costs": "fraction_of_GDP",
    "damage_costs_non_slr": "fraction_of_GDP", "damage_costs_slr": "fraction_of_GDP", "relative_abatement": "fraction_of_baseline_emissions", "population": "billion people",
    "baseline_carbon_intensity": "emissionsrate_unit/currency_unit", "global_cost_per_emission_reduction_unit": "currency_unit/emissionsrate_unit",
    "global_emission_reduction_per_cost_unit": "emissionsrate_unit/currency_unit",
}


class Texts:
    """Symbols printed into files: text -> (symbol, what the format did to it)."""

    def __init__(self):
        self.by_text = {}
        self.n = 0

    def text(self, sym, spec=""):
        m = re.fullmatch(r"%?(?:\.(\d+))?([gGeEf]?)|None", str(spec))
        if m is None:
            raise S.NeedFloat(f"format {spec!r} of a symbolic number", sym)
        digits, kind = (int(m.group(1)) if m.group(1) else None), (m.group(2) or "").lower()
        if kind == "" and digits is None:
            w, bound = sym, None
        else:
            self.n += 1
            w = S.var(f"written {self.n}")
            d = 6 if digits is None else digits
            rel = F(1, 2) * (F(10) ** (1 - max(d, 1) if kind in ("g", "") else -d))
            bound = ("abs" if kind == "f" else "rel", rel, w)
        t = f"\u27ea{len(self.by_text)}\u27eb"
        self.by_text[t] = (sym, w, bound)
        return t

    def get(self, text):
        return self.by_text.get(text.strip() if isinstance(text, str) else text)


def _abs_le(d, k, x):
    """|d| <= k |x|"""
    up = S.mul(const(k), x)
    pos = S.and_(le(const(0), x), le(d, up), le(S.neg(up), d))
    neg = S.and_(S.lt(x, const(0)), le(d, S.neg(up)), le(up, d))
    return S.or_(pos, neg)


def check(prop, tier):
    h = harness.Harness(prop, tier, "Every variable and parameter value of a built model is replaced by its own symbol and the model saved through MIMOSA.save; the file is read back and each cell compared with the "
                        "symbol that belongs there. The rounding of the number format is a symbolic error; the queries decide that every value is reproduced to a relative error of 1e-5.")
    import mimosa.export.save as save_mod
    from mimosa.common import quant
    RegisterNumericType(Sym)

    def build(c):
        p = M.small_params(regions=c["regions"], start=c["grid"]["start"], end=c["grid"]["end"], dt=c["grid"]["dt"])
        for k, v in c["overrides"].items():
            M.deep_update(p, k.split("."), v)
        return M.build(p, symbolic=False), p

    def expected(m):
        """{(name, region or 'Global'): [component data index per period]} of everything over time."""
        out = {}
        for v in m.component_objects(pe.Var, descend_into=False):
            if v.name.startswith("_") or not v.is_indexed():
                continue
            sets = [s.local_name for s in v.index_set().subsets()]
            if sets == ["t", "regions"]:
                for r in m.regions:
                    out[v.name, r] = (v, [(t, r) for t in m.t])
            elif sets == ["t"]:
                out[v.name, "Global"] = (v, list(m.t))
        for v in m.component_objects(pe.Param, descend_into=False):
            if v.is_indexed() and not v.name.startswith("_") and [s.local_name for s in v.index_set().subsets()] == ["t", "regions"]:
                for r in m.regions:
                    out[v.name, r] = (v, [(t, r) for t in m.t])
        return out

    def put(comp, idx, x):
        if isinstance(comp, pe.Var):
            comp[idx].set_value(x, skip_validation=True)
            return
        if comp.mutable:
            comp[idx]._value = x
        else:
            comp._data[idx] = x

    def number(comp, idx):
        return pe.value(comp[idx])

    def files(d):
        data = [f for f in glob.glob(os.path.join(d, "**", "*"), recursive=True) if f.endswith(".csv")]
        par = [f for f in glob.glob(os.path.join(d, "**", "*"), recursive=True) if f.endswith(".params.json")]
        return data, par

    def read(path):
        with open(path, encoding="utf8", newline="") as fh:
            return list(csv.reader(fh))

    # ------------------------------------------------ the real code on numbers
    def replay_for(c, how):
        def replay(env):
            sm, _ = build(c)
            m = sm.m
            exp = expected(m)
            # a different number everywhere, the counterexample's everywhere it is given
            start, dt = (float(env.get(k, c["grid"][k])) for k in ("start", "dt"))
            if "start" in env or "dt" in env:
                m.year = lambda t: start + t * dt
            given = [float(v) for k, v in env.items() if k not in ("start", "dt")] or [1.0]
            k = 0
            for comp, idx in exp.values():
                for i in idx:
                    put(comp, i, given[k % len(given)] * (1 + 1e-3 * k))
                    k += 1
            with harness.scratch() as d, M.quiet():
                sm.mimosa.save("run", folder=os.path.join(d, "out"), **how)
                data, par = files(d)
                if len(data) != 1 or len(par) != 1:
                    return f"files written: {sorted(data + par)}"
                rows = read(data[0])
            head, seen = rows[0], {}
            for y, t in zip(head[3:], m.t):
                if abs(float(y) - (start + t * dt)) > 0.019:
                    return f"column of period {t} is headed {y}, its year is {start + t * dt:.9g}"
            for r in rows[1:]:
                if (r[0], r[1]) in seen:
                    return f"{r[0]} of {r[1]} is exported twice"
                seen[r[0], r[1]] = r
            for key, (comp, idx) in exp.items():
                if key not in seen:
                    return f"{key[0]} of {key[1]} is not exported"
                cells = seen[key][3:]
                if len(cells) != len(idx):
                    return f"{key}: {len(cells)} values for {len(idx)} periods"
                for i, x in zip(idx, cells):
                    want = float(number(comp, i))
                    try:
                        got = float(x)
                    except ValueError:
                        return f"{comp.name}[{i}] = {want!r} is exported as {x!r}"
                    if abs(got - want) > 1.2e-5 * abs(want):
                        return f"{comp.name}[{i}] = {want!r} is exported as {x!r} under {key}"
            return None
        return replay

    # ------------------------------------------------ one symbolic export
    def export(c, how, symgrid, only=None):
        sm, p = build(c)
        m, mod = sm.m, sm.mimosa
        exp = expected(m)
        own = {}
        for n, (key, (comp, idx)) in enumerate(exp.items()):
            for k, i in enumerate(idx):
                # all cells at once, or one cell of one row with plain numbers elsewhere
                if only is None or (n == only[0] and k == only[1] % len(idx)):
                    own[comp.name, i] = S.var(f"value {comp.name}{M.idx_str(i)}")
                    put(comp, i, own[comp.name, i])
                else:
                    x = (n + 1) * 1.25 + k * 0.0625
                    own[comp.name, i] = const(F(x))
                    put(comp, i, x)
        if symgrid:
            start, dt = S.var("start"), S.var("dt")
            m.year = lambda t: start + t * dt
            m.beginyear._data[None] = start
            m.dt._data[None] = dt
            years = [start + t * dt for t in m.t]
        else:
            years = [const(F(str(c["grid"]["start"])) + t * F(str(c["grid"]["dt"]))) for t in m.t]
        # ---- settings: every number of the run's settings is replaced by a symbol
        leaves = {}

        def walk(run, ref, path):
            if isinstance(run, dict) and isinstance(ref, dict):
                if set(run) != set(ref):
                    leaves[path] = ("changed", sorted(map(str, set(run) ^ set(ref)))[:3])
                    return run
                return {k: walk(run[k], ref[k], path + (str(k),)) for k in run}
            if isinstance(run, (list, tuple)) and isinstance(ref, (list, tuple)) and len(run) == len(ref):
                return [walk(a, b, path + (str(k),)) for k, (a, b) in enumerate(zip(run, ref))]
            if run != ref or type(run) is not type(ref):
                leaves[path] = ("changed", f"{ref!r} became {run!r}")
                return run
            if isinstance(run, (int, float)) and not isinstance(run, bool):
                leaves[path] = ("number", S.var("setting " + " > ".join(path)))
                return leaves[path][1]
            leaves[path] = ("other", run)
            return run

        mod.params = walk(mod.params, sm.params, ())
        T = Texts()
        real_to_csv = pd.DataFrame.to_csv

        def to_csv(self, *a, **k):
            spec = k.get("float_format")

            def cell(v):
                if not isinstance(v, Sym):
                    return v
                if callable(spec):
                    return spec(v)
                return T.text(v, spec or "")
            out = self.map(cell)
            out.columns = [cell(x) for x in out.columns]
            return real_to_csv(out, *a, **k)

        with harness.scratch() as d, M.quiet(), harness.patched([
                (pd.DataFrame, "to_csv", to_csv), (Sym, "__str__", lambda s: T.text(s)), (Sym, "__format__", lambda s, spec: T.text(s, spec)),
                (json.JSONEncoder, "default", lambda self, o: T.text(o) if isinstance(o, Sym) else real_default(self, o)), (save_mod, "float", VL.FloatShim), (save_mod, "round", _round)]):
            mod.save("run", folder=os.path.join(d, "out"), **how)
            data, par = files(d)
            table = [read(f) for f in data]
            settings = [json.load(open(f, encoding="utf8")) for f in par]
            # saving twice must not depend on the first time
        return {"m": m, "exp": exp, "own": own, "years": years, "T": T, "leaves": leaves, "data": [os.path.relpath(f, d) for f in data], "par": [os.path.relpath(f, d) for f in par], "table": table, "settings": settings, "mod": mod}

    real_default = json.JSONEncoder.default

    def _round(x, n=None):
        if isinstance(x, Sym):
            return x.__round__(n)
        return round(x, n) if n is not None else round(x)

    def close(key, text, want, got_text, T, replay, rel=REL, pcond=()):
        """The written text stands for `want` to within the relative error, for every value."""
        e = T.get(got_text)
        if e is None:
            try:
                num = const(float(got_text))
            except (TypeError, ValueError):
                num = None
            if num is None:
                h.holds(key, f"{text} is exported as {got_text!r}", False)
                return
            h.prove(key, f"{text} is exported as {got_text}", list(pcond), _abs_le(S.sub(num, want), rel, want), replay)
            return
        sym, w, bound = e
        if S.lift(sym).id == S.lift(want).id:
            x = want
            if w is sym:
                h.holds(key, f"{text}", True)
                return
        else:
            x = sym
        target = x if S.lift(sym).id == S.lift(want).id else want
        if w is sym:
            h.prove(key, f"{text}: exported as given", list(pcond), _abs_le(S.sub(x, target), rel, target), replay)
            return
        kind, k, wv = bound
        d = S.sub(wv, x)
        asm = S.and_(le(d, const(k)), le(const(-k), d)) if kind == "abs" else _abs_le(d, k, x)
        h.prove(key, f"{text}: exported with {kind}. error {float(k):g}", [asm] + list(pcond), _abs_le(S.sub(wv, target), rel, target), replay)

    def compare(label, o, c, replay, pcond=()):
        m, exp, T = o["m"], o["exp"], o["T"]
        if not h.holds("files", f"{label}: files {o['data']} {o['par']}", len(o["data"]) == 1 and len(o["par"]) == 1 and os.path.basename(o["data"][0]).startswith("run") and os.path.dirname(o["data"][0]) == "out"):
            return
        rows = o["table"][0]
        head = rows[0]
        if not h.holds("header", f"{label}: header {head[:4]}", head[:3] == ["Variable", "Region", "Unit"] and len(head) == 3 + len(list(m.t))):
            return
        grid = [le(const(1000), S.var("start")), le(S.var("start"), const(3000)), le(const(F(1, 2)), S.var("dt")), le(S.var("dt"), const(50))]
        for t, y, want in zip(m.t, head[3:], o["years"]):
            e = T.get(y)
            if e is None:
                d = abs(F(str(y)) - want.args[0]) if want.op == "const" else None
                h.holds("header", f"{label}: period {t} is headed {y}, its year is {S.show(want)}", d is not None and d <= F(5, 10**6) * want.args[0], replay)
                continue
            sym, w, bound = e
            asm = list(grid)
            if bound is not None:
                asm.append(_abs_le(S.sub(bound[2], sym), bound[1], sym))
            h.prove("header", f"{label}: the year heading the column of period {t}", asm, S.and_(le(S.sub(w, want), const(F(1, 50))), le(const(F(-1, 50)), S.sub(w, want))), replay)
        seen = {}
        for r in rows[1:]:
            seen.setdefault((r[0], r[1]), []).append(r)
        for key, rs in seen.items():
            if key in exp:
                h.holds("once", f"{label}: {key[0]} of {key[1]} has {len(rs)} rows", len(rs) == 1)
        # anything else in the table would be under a wrong name or region
        extra = [k for k in seen if k not in exp and (k[0] in {n for n, _ in exp} or k[1] not in list(m.regions) + ["Global"] or k[0].startswith("_"))]
        h.holds("once", f"{label}: rows {extra[:3]}", not extra)
        for key, (comp, idx) in exp.items():
            if not h.holds("complete", f"{label}: {key[0]} of {key[1]} is not exported", key in seen):
                continue
            r = seen[key][0]
            if not h.holds("complete", f"{label}: {key} has {len(r) - 3} values", len(r) - 3 == len(idx)):
                continue
            for i, x in zip(idx, r[3:]):
                close("value", f"{label}: {comp.name}[{i}] under {key}", o["own"][comp.name, i], x, T, replay, pcond=list(pcond))

    def units(label, o):
        from pyomo.environ import units as pu
        rows = o["table"][0]
        v = S.var("v")
        done = set()
        for r in rows[1:]:
            name, text = r[0], r[2]
            if name in done or (name, r[1]) not in o["exp"]:
                continue
            done.add(name)
            comp = o["exp"][name, r[1]][0]
            # values are in the default units (C12); the declared unit and the documented one
            wants = [("declared", str(pu.get_units(comp)) if pu.get_units(comp) is not None else "dimensionless")]
            if name in UNITS:
                wants.append(("documented", UNITS[name]))
            for what, unit in wants:
                try:
                    f = F(1) if not text and unit == "dimensionless" else F(quant(1, text, unit)).limit_denominator(10**12)
                except Exception as exc:  # noqa: BLE001
                    h.holds("unit", f"{label}: {name} is exported in {text!r}, which is not the {what} unit {unit!r} ({type(exc).__name__})", False)
                    continue
                h.prove("unit", f"{label}: {name} in {text!r} is the {what} unit {unit!r} times {float(f):g}", [], _abs_le(S.sub(S.mul(v, const(f)), v), F(1, 10**9), v))

    def settings(label, o):
        T, got = o["T"], o["settings"][0]
        for path, (kind, want) in o["leaves"].items():
            name = " > ".join(path)
            if kind == "changed":
                h.holds("settings", f"{label}: the run's settings differ from the given ones at {name}: {want}", False)
                continue
            x = got
            try:
                for k in path:
                    x = x[int(k)] if isinstance(x, list) else x[k]
            except (KeyError, IndexError, TypeError, ValueError):
                h.holds("settings", f"{label}: {name} is not in the exported settings", False)
                continue
            if kind == "number":
                close("settings", f"{label}: {name}", want, x if isinstance(x, (str, int, float)) else repr(x), T, None, rel=F(0))
            else:
                h.holds("settings", f"{label}: {name} is exported as {x!r} instead of {want!r}", x == want and isinstance(x, bool) == isinstance(want, bool))

    todo = [c for c in (configs.QUICK if h.thorough else [x for x in configs.QUICK if x["name"] in
            ("default", "trade-budget-2100", "cost-pool-percap", "nodamage-globalcosts", "equal-total", "half-year", "single-region", "logistic")]) if c["symgrid"] is None and c["conv"] != "sym"]
    extra = [configs.cfg("one-year steps", g=configs.grid(2020, 2032, 1), regions=("USA", "CAN")), configs.cfg("decimal steps", g=configs.grid(2015.5, 2019.9, 1.1), regions=("CAN",)),
             configs.cfg("many regions", regions=("WEU", "CAN", "SEAS", "USA", "INDIA", "ME", "CHN"), g=configs.grid(2020, 2100, 10))]
    points = [{"a": F(12345678, 10000000)}, {"a": F(123456789, 10**12)}, {"a": F(-987654321, 1000)}, {"a": F(0)}, {"a": F(1234567890123)}, {"a": F(-1, 10**9)}]
    branching = []
    for n, c in enumerate(todo + extra):
        for how, symgrid in (({}, False), ({"hash_suffix": True}, True)) if n < 2 or h.thorough else (({}, n % 2 == 1),):
            label = f"{c['name']}{', hashed name' if how else ''}{', symbolic years' if symgrid else ''}"
            rp = replay_for(c, how)
            paths = None if branching else h.explore(lambda: export(c, how, symgrid), label=label, max_paths=12, limit_ok=True)
            if paths is None:
                # the code distinguishes between values: one symbolic cell per row instead of all at once
                if branching:
                    continue
                branching.append(label)
                for env in points:
                    what = _raises(rp, env)
                    if what:
                        h.fail("value", f"{label}: {what}", {"values": {k: str(v) for k, v in env.items()}})
                        break
                paths = []
                t0 = time.time()
                for k in range(len(expected(build(c)[0].m))):
                    if h.rep.violations or time.time() - t0 > 240:
                        break
                    paths += h.explore(lambda: export(c, how, symgrid, (k, k)), label=f"{label}, row {k}", max_paths=50)
            for o, exc, pcond, _ in paths:
                if isinstance(exc, S.NeedFloat):
                    h.no_answer("value", label, exc, rp, points)
                elif exc is not None:
                    h.prove("files", f"{label}: {harness.exc_text(exc)}", pcond, S.bconst(False), lambda env: _raises(rp, env))
                else:
                    compare(label, o, c, rp, pcond)
                    if not symgrid and o["table"]:
                        units(label, o)
                    if o["settings"]:
                        settings(label, o)

    # ---- after the solver's variables were merged and restored the helper block is not exported, nothing is lost
    for c in [x for x in configs.QUICK if x["name"] in ("default", "trade")]:
        def go():
            sm, _ = build(c)
            before = set(expected(sm.m))
            with M.quiet():
                sm.mimosa.preprocessing()
                for comp, idx in expected(sm.m).values():
                    for i in idx:
                        if isinstance(comp, pe.Var) and comp[i].value is None:
                            comp[i].set_value(0.5, skip_validation=True)
                sm.mimosa.postprocessing()
                with harness.scratch() as d:
                    sm.mimosa.save("run", folder=os.path.join(d, "out"))
                    rows = read(files(d)[0][0])
            return before, [(r[0], r[1]) for r in rows[1:]]
        for o, exc, _, _ in h.explore(go, label="merged variables"):
            if h.holds("merged", f"export after merging variables: {harness.exc_text(exc) if exc else ''}", exc is None):
                before, got = o
                h.holds("merged", f"{c['name']}: rows {sorted(set(got) ^ before)[:4]} differ after merging variables", set(got) == before and len(got) == len(before))
    return h.done(
        bounds=[f"{len(todo) + len(extra)} configurations, every value of every variable and parameter over time and region (any real number), numeric and symbolic start year and time step", "every number of the settings"],
        outside=["parameters over time only and scalar parameters (not part of the table)", "values that are not set or not finite"],
        assumptions=["printf-style number formats round to the stated number of digits", "pandas writes every cell of its table to the file, json every element (their real code is executed on symbolic cells)"])


def _raises(real, env):
    try:
        return real(env)
    except Exception as e:  # noqa: BLE001
        return harness.exc_text(e)


_ = copy

"""C21: simulation mode imposes exactly the given pathways."""
import os
from fractions import Fraction as F

import pandas as pd
import pyomo.environ as pe

from . import harness
from . import model as M
from . import sym as S
from . import values as VL
from .sym import const, le

EPS = F(1, 1000)  # documented tolerance (simulation_mode)
SLACK = F(1, 10**6)  # rounding of the interpolation at its own points
BOX = 1000


def check(prop, tier):
    h = harness.Harness(prop, tier, "The model is built through the public constructor with symbolic pathways; the constraints it adds are translated and compared with |variable - pathway| <= tolerance for every period and "
                        "region by queries in both directions, and all other constraints with those of the model built without simulation mode.")
    import mimosa.concrete_model.simulation_mode as sim
    import mimosa.concrete_model.simulation_mode.utils as su

    real_read = pd.read_csv
    csv = {}

    def read(path, *a, **k):
        name = os.path.abspath(str(path))
        return csv[name].copy() if name in csv else real_read(path, *a, **k)

    def build(ov, grid, regions, symbolic=True):
        p = M.small_params(regions=regions, start=grid[0], end=grid[1], dt=grid[2])
        for k, v in ov.items():
            M.deep_update(p, k.split("."), v)
        patches = {(pd, "read_csv"): read}
        if symbolic:
            patches[(su, "float")] = VL.FloatShim
            with VL.interpolators():
                return M.build(p, patches=patches)
        return M.build(p, symbolic=False, patches=patches)

    def table(sm):
        """{(name, index): term} of the active constraints and bounds."""
        sm._cons = None
        return {(n, str(i)): f for n, i, f in sm.constraints()}

    def names(sm):
        return [c.name for c in sm.m.component_objects(pe.Constraint)]

    def pathway(var, regions, years):
        return {y: {r: S.var(f"path {var} {r} {y}") for r in regions} for y in years}

    def sign(paths, up):
        """One sign for every last growth rate (the extension beyond the given years is not the subject)."""
        out = []
        for d in paths.values():
            ys = list(d)
            for r in d[ys[0]]:
                a, b = d[ys[-2]][r], d[ys[-1]][r]
                out.append(S.lt(a, b) if up else le(b, a))
        return out

    def path_box(paths):
        return [b for d in paths.values() for row in d.values() for x in row.values() for b in (le(const(-BOX), x), le(x, const(BOX)))]

    def var_term(sm, v, t, r):
        comp = getattr(sm.m, v)
        return S.var(f"{v}[{t},{r}]" if comp.index_set().dimen > 1 else f"{v}[{t}]")

    def numeric(p, env):
        return {v: {y: {r: float(env.get(x.args[0], 10.0)) for r, x in row.items()} for y, row in d.items()} for v, d in p.items()}

    base = {}

    def baseline(key, grid, regions, ov):
        k = (key, grid, regions)
        if k not in base:
            sm = build({k2: v for k2, v in ov.items() if not k2.startswith("simulation.")}, grid, regions)
            base[k] = (table(sm), set(names(sm)))
        return base[k]

    def compare(label, sm, pcond, paths, deactivated, base_table, base_names, grid, regions, real):
        years = [sm.m.year(t) for t in sm.m.t]
        got = table(sm)
        missing = {f"constraint_{d}" for d in deactivated}
        # ---- everything the model has without simulation mode, except the listed constraints
        for (n, i), f in base_table.items():
            if n in missing:
                h.holds("deactivated", f"{label}: {n}[{i}] is still active", (n, i) not in got)
            elif (n, i) not in got:
                h.holds("others", f"{label}: {n}[{i}] is not active any more", False)
            elif got[n, i] is not f:
                g = got[n, i]
                h.prove("others", f"{label}: {n}[{i}] is unchanged", pcond, S.and_(S.implies(g, f), S.implies(f, g)))
            else:
                h.holds("others", f"{label}: {n}[{i}]", True)
        extra = {k: f for k, f in got.items() if k not in base_table}
        want = {}
        for v, d in paths.items():
            comp = getattr(sm.m, v)
            for t, y in zip(sm.m.t, years):
                for r in (regions if comp.index_set().dimen > 1 else ["Global"]):
                    match = [yy for yy in d if float(yy) == float(y)]
                    want[v, t, r] = (var_term(sm, v, t, r), d[match[0]][r])
        box = pcond + path_box(paths)
        pool = list(extra.values())

        def near(x, p, tol):
            d = S.sub(x, p)
            return S.and_(le(d, const(tol)), le(const(-tol), d))
        xs = {}
        for f in pool:
            for n in S.variables(f):
                xs.setdefault(n, []).append(f)
        for (v, t, r), (x, p) in want.items():
            own = xs.get(x.args[0], [])
            h.prove("imposed", f"{label}: {v} of {r} in period {t} equals the pathway", box + own, near(x, p, EPS + SLACK), real)
        spec_of = {}
        for x, p in want.values():
            spec_of.setdefault(x.args[0], near(x, p, EPS - SLACK))
        for (n, i), f in extra.items():
            spec = [spec_of[x] for x in S.variables(f) if x in spec_of]
            h.prove("nothing else", f"{label}: {n}[{i}] follows from the pathways", box + spec, f, real)

    def replay_for(ov, grid, regions, paths, deactivated, as_csv=None):
        """Plain numbers through the same constructor: is x = p allowed, p +- 2 eps not?"""
        def replay(env):
            num = numeric(paths, env)
            o = dict(ov)
            if as_csv is None:
                o["simulation.constraint_variables"] = num
            else:
                as_csv(num)
            sm = build(o, grid, regions, symbolic=False)
            off = build({**o, "simulation.simulationmode": False}, grid, regions, symbolic=False)
            old = set(names(off))
            extra = [c for c in sm.m.component_objects(pe.Constraint, active=True) if c.name not in old]
            for v, d in num.items():
                comp = getattr(sm.m, v)
                for t in sm.m.t:
                    y = [k for k in d if float(k) == float(sm.m.year(t))][0]
                    for r in regions if comp.index_set().dimen > 1 else ["Global"]:
                        (comp[t, r] if comp.index_set().dimen > 1 else comp[t]).set_value(d[y][r], skip_validation=True)

            def bad():
                out = []
                for c in extra:
                    for i in c:
                        b = pe.value(c[i].body)
                        lo, hi = pe.value(c[i].lower), pe.value(c[i].upper)
                        if lo is not None and b < lo - 1e-6 or hi is not None and b > hi + 1e-6:
                            out.append((c.name, i))
                return out
            if bad():
                return f"the pathway itself violates {bad()[:2]} ({num})"
            for v, d in num.items():
                comp = getattr(sm.m, v)
                for t in sm.m.t:
                    for r in regions if comp.index_set().dimen > 1 else ["Global"]:
                        x = comp[t, r] if comp.index_set().dimen > 1 else comp[t]
                        x0 = pe.value(x)
                        for delta in (0.0011, -0.0011, 0.0009, -0.0009):
                            x.set_value(x0 + delta, skip_validation=True)
                            ok = not bad()
                            x.set_value(x0, skip_validation=True)
                            if ok != (abs(delta) < 0.001):
                                return f"{v} of {r} in period {t}: {delta} from the pathway value {x0} is {'allowed' if ok else 'not allowed'}"
            return None
        return replay

    R = ("CAN", "USA")
    G1, G2, G3 = (2020, 2035, 5), (2020, 2040, 10), (2020, 2043, 7)
    every5 = list(range(2020, 2101, 5))
    grids = [(G1, [2020, 2025, 2030, 2035]), (G1, every5), (G2, list(range(2010, 2101, 10))), (G3, [2020, 2027, 2034, 2041, 2048])]
    if h.thorough:
        grids += [((2015, 2150, 15), list(range(2015, 2166, 15))), ((2020, 2160, 20), list(range(2020, 2181, 20))), ((2020, 2022, 0.5), [2020 + k / 2 for k in range(6)]), ((2050, 2100, 10), list(range(2010, 2101, 5)))]

    # ------------------------------------------------ through the constructor
    cases = [("a global variable", ["global_emissions"], []), ("a regional variable", ["relative_abatement"], []), ("both", ["temperature", "regional_emissions"], ["carbon_budget"]),
             ("only deactivated constraints", [], ["net_zero_after_2100", "temperature"]), ("nothing", [], [])]
    for gi, (grid, years) in enumerate(grids):
        for name, vs, dead in cases if gi < 2 or h.thorough else cases[2:3]:
            paths = {v: pathway(v, ["Global"] if v in ("global_emissions", "temperature") else R, years) for v in vs}
            ov = {"simulation.simulationmode": True, "simulation.constraint_variables": paths, "simulation.deactivated_constraints": dead}
            for up in (True, False) if vs else (True,):
                label = f"{name}, {grid}" + (", falling" if not up else "")
                bt, bn = baseline("default", grid, R, {})
                real = replay_for(ov, grid, R, paths, dead)
                for sm, exc, pcond, _ in h.explore(lambda: build(ov, grid, R), sign(paths, up), label=label):
                    if isinstance(exc, S.NeedFloat):
                        h.no_answer("imposed", label, exc, real, [{}])
                    elif exc is not None:
                        h.prove("build", f"{label}: {harness.exc_text(exc)}", sign(paths, up) + pcond, S.bconst(False), lambda env: _raises(real, env))
                    else:
                        h.witness(sign(paths, up) + pcond + path_box(paths), label)
                        compare(label, sm, sign(paths, up) + pcond, paths, dead, bt, bn, grid, R, real)
    # ---- pathways from files: several variables and regions in one file, wildcard in the name
    with harness.scratch() as d:
        os.makedirs(os.path.join(d, "out"))
        fn = os.path.join(d, "out", "scenario_pathway_1.csv")
        with open(fn, "w", encoding="utf8") as fh:
            fh.write("never read: the table is given by the check\n")
        os.makedirs(os.path.join(d, "other"))
        fn2 = os.path.join(d, "other", "scenario_pathway_1.csv")  # of the same name, in another folder
        with open(fn2, "w", encoding="utf8") as fh:
            fh.write("never read: the table is given by the check\n")
        for how, where in (("file", fn), ("wildcard", os.path.join(d, "out", "scenario_*_1.csv")), ("pair of files", fn)):
            for unit, shuffled in ((True, False), (False, True)):
                paths = {"global_emissions": pathway("global_emissions", ["Global"], every5), "carbonprice": pathway("carbonprice", R, every5)}

                def rows(val, which):
                    out = []
                    for v in which:
                        for r in (list(R) + ["MEX"]) if v == "carbonprice" else ["Global"]:
                            out.append([v, r, "unit"] + [val(v, r, y) for y in every5])
                    out.append(["global_emissions_other", "Global", "unit"] + [1.0 for _ in every5])
                    if shuffled:
                        out.reverse()
                    t = pd.DataFrame({c: pd.Series([o[i] for o in out], dtype=object) for i, c in enumerate(["Variable", "Region", "Unit"] + [str(y) for y in every5])})
                    return t if unit else t.drop(columns="Unit")

                source = {v: fn2 if how == "pair of files" and v == "carbonprice" else where for v in paths}
                held = {f: [v for v in paths if (f == fn2) == (source[v] == fn2)] for f in set(source.values()) | {fn}} if how == "pair of files" else {fn: list(paths)}

                def set_symbolic():
                    for f, which in held.items():
                        csv[os.path.abspath(f)] = rows(lambda v, r, y: paths[v][y][r] if r in paths[v][y] else S.var(f"other {v} {r} {y}"), which)

                def set_numeric(num):
                    for f, which in held.items():
                        csv[os.path.abspath(f)] = rows(lambda v, r, y: num[v][y].get(r, 3.0), which).astype({str(y): float for y in every5})
                ov = {"simulation.simulationmode": True, "simulation.constraint_variables": source, "simulation.deactivated_constraints": ["carbonprice"]}
                label = f"pathways from a {how}" + ("" if unit else ", without units")
                real = replay_for(ov, G1, R, paths, ["carbonprice"], set_numeric)
                bt, bn = baseline("default", G1, R, {})
                mex = [S.lt(S.var("other carbonprice MEX 2095"), S.var("other carbonprice MEX 2100"))]
                set_symbolic()
                for sm, exc, pcond, _ in h.explore(lambda: build(ov, G1, R), sign(paths, False) + mex, label=label):
                    if isinstance(exc, S.NeedFloat):
                        h.no_answer("imposed", label, exc, real, [{}])
                    elif exc is not None:
                        h.prove("build", f"{label}: {harness.exc_text(exc)}", pcond, S.bconst(False), lambda env: _raises(real, env))
                    else:
                        compare(label, sm, sign(paths, False) + pcond, paths, ["carbonprice"], bt, bn, G1, R, real)
                    set_symbolic()
        csv.clear()

    # ------------------------------------------------ every variable of the model, every constraint, on the built model
    ov0 = {"model.emissiontrade module": "emissiontrade", "model.financialtransfer module": "globaldamagepool", "emissions.carbonbudget": "700 GtCO2", "effort sharing.regime": "equal_mitigation_costs"}
    for sm, exc, pcond, _ in h.explore(lambda: build(ov0, G1, R), label="model with trade and transfers"):
        if not h.holds("build", f"model with trade and transfers: {harness.exc_text(exc) if exc else ''}", exc is None):
            continue
        bt, allnames = table(sm), names(sm)
        variables = [v.name for v in sm.m.component_objects(pe.Var) if v.is_indexed()]
        for v in variables:
            regional = getattr(sm.m, v).index_set().dimen > 1
            paths = {v: pathway(v, R if regional else ["Global"], [2020, 2025, 2030, 2035, 2040])}
            params = {"simulation": {"simulationmode": True, "constraint_variables": paths, "deactivated_constraints": None}}
            before = {c.name for c in sm.m.component_objects()}

            def go():
                for c in [c.name for c in sm.m.component_objects() if c.name not in before]:
                    sm.m.del_component(c)
                with VL.interpolators(), harness.patched([(su, "float", VL.FloatShim)]), M.quiet():
                    sim.set_simulation_mode(sm.m, params)
                return sm
            ovv = {**ov0, "simulation.simulationmode": True, "simulation.constraint_variables": paths}
            real = replay_for(ovv, G1, R, paths, [])
            for _, exc, pc, _ in h.explore(go, sign(paths, True), label=v):
                if isinstance(exc, S.NeedFloat):
                    h.no_answer("imposed", v, exc, real, [{}])
                elif exc is not None:
                    h.prove("imposed", f"{v}: {harness.exc_text(exc)}", pc, S.bconst(False), lambda env: _raises(real, env))
                else:
                    compare(f"imposing {v}", sm, sign(paths, True) + pc, paths, [], bt, allnames, G1, R, real)
            for c in [c.name for c in sm.m.component_objects() if c.name not in before]:
                sm.m.del_component(c)
        # every constraint can be switched off alone, and with another one
        for k, full in enumerate(allnames):
            short = full[len("constraint_"):]
            other = allnames[(k + 7) % len(allnames)][len("constraint_"):]
            for listed in ([short], [other, short]):
                for _, exc, pc, _ in h.explore(lambda: sim.set_simulation_mode(sm.m, {"simulation": {"simulationmode": True, "constraint_variables": {}, "deactivated_constraints": listed}}), label=full):
                    if h.holds("deactivated", f"{listed}: {harness.exc_text(exc) if exc else ''}", exc is None):
                        off = {f"constraint_{x}" for x in listed}
                        act = {c.name: [c[i].active for i in c] for c in sm.m.component_objects(pe.Constraint)}
                        h.holds("deactivated", f"deactivating {listed}: still active", not any(any(act[n]) for n in off))
                        h.holds("others", f"deactivating {listed}: other constraints became inactive", all(all(a) for n, a in act.items() if n not in off))
                for c in sm.m.component_objects(pe.Constraint):
                    c.activate()

    # ------------------------------------------------ no effect when switched off
    paths = {"temperature": pathway("temperature", ["Global"], every5), "regional_emissions": pathway("regional_emissions", R, every5)}
    for ov in ({"simulation.simulationmode": False, "simulation.constraint_variables": paths, "simulation.deactivated_constraints": ["carbon_budget", "temperature", "GDP_net"]},
               {"simulation.simulationmode": False, "simulation.constraint_variables": {"temperature": "no_such_file.csv"}}, {"simulation.deactivated_constraints": ["global_emissions"]}):
        for grid in (G1, (2090, 2110, 5)):
            bt, bn = baseline("default", grid, R, {})
            for sm, exc, pcond, _ in h.explore(lambda: build(ov, grid, R), sign(paths, True), label="switched off"):
                if h.holds("off", f"simulation mode off, {sorted(ov)}: {harness.exc_text(exc) if exc else ''}", exc is None):
                    got = table(sm)
                    h.holds("off", f"simulation mode off: constraints {sorted(set(got) ^ set(bt))[:4]} differ", set(got) == set(bt))
                    for k in set(got) & set(bt):
                        if got[k] is bt[k]:
                            h.holds("off", f"{k}", True)
                        else:
                            h.prove("off", f"simulation mode off: {k} is unchanged", pcond, S.and_(S.implies(got[k], bt[k]), S.implies(bt[k], got[k])))
    return h.done(
        bounds=[f"{len(grids)} combinations of model grid and pathway years, two regions, all pathway values in [-{BOX}, {BOX}], all parameter and variable values", f"every indexed variable of a model with trade and transfers, every constraint name alone and with another one",
                "pathways as dictionaries and as files (one file for several variables, wildcard in the name, extra regions and variables)"],
        outside=["periods for which no pathway value is given (interpolated or extended)", "pathways with unsorted years"],
        assumptions=["the spline of scipy is linear in the data and passes through its points up to 1e-6", "Pyomo's preprocessing transformations are left out"])


def _raises(real, env):
    try:
        return real(env)
    except Exception as e:  # noqa: BLE001
        return harness.exc_text(e)

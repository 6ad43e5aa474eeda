"""C26: an exported run can be imposed on another run."""
import os
from fractions import Fraction as F

import pandas as pd
import pyomo.environ as pe
from pyomo.common.numeric_types import RegisterNumericType

from . import harness
from . import model as M
from . import sym as S
from . import values as VL
from .check_c22 import Texts, _abs_le
from .sym import Sym, const, le

EPS = F(1, 1000)  # documented tolerance of simulation mode
REL = F(1, 100000)  # relative accuracy of the exported table
SLACK = F(1, 10**5)  # rounding of the interpolation at its own points, relative to BOX
BOX = 10
R = ("CAN", "USA", "INDIA")

# exported run (settings, grid, regions), importing run (settings, grid, regions), imposed variables
TRADE = {"model.emissiontrade module": "emissiontrade"}
CASES = [
    ("same run", ({}, (2020, 2040, 5), R), ({}, (2020, 2040, 5), R), ["relative_abatement", "global_emissions"]),
    ("baseline on a run with damages", ({"model.damage module": "nodamage"}, (2020, 2050, 10), R), ({"model.financialtransfer module": "globaldamagepool"}, (2020, 2050, 10), R), ["regional_emissions", "temperature"]),
    ("other trade module", (TRADE, (2020, 2041, 7), R), ({"model.emissiontrade module": "notrade"}, (2020, 2041, 7), R), ["capital_stock", "mitigation_costs", "total_SLR"]),
    ("fewer regions, in another order", ({}, (2020, 2040, 5), R), ({}, (2020, 2040, 5), ("INDIA", "CAN")), ["carbonprice", "temperature"]),
    ("shorter horizon", ({}, (2020, 2060, 5), R), ({}, (2020, 2040, 5), R), ["consumption", "cumulative_emissions"]),
    ("coarser periods", ({}, (2020, 2060, 5), R), ({"model.welfare module": "cost_minimising"}, (2020, 2060, 10), R), ["relative_abatement", "cumulative_emissions"]),
    ("half years", ({}, (2020, 2022, 0.5), R), (TRADE, (2020, 2022, 0.5), R), ["relative_abatement", "temperature"]),
    ("after 2100", ({}, (2090, 2130, 10), R), ({}, (2090, 2130, 10), R), ["relative_abatement", "total_SLR"]),
    ("names contained in others", ({}, (2020, 2030, 5), R), ({}, (2020, 2030, 5), R), ["damage_costs", "GDP_gross"]),
    ("one region", ({}, (2020, 2040, 5), ("WEU",)), ({}, (2020, 2040, 5), ("WEU",)), ["GDP_net", "global_emissions"]),
]
MORE = [
    ("long", ({}, (2020, 2150, 10), R), ({}, (2020, 2150, 10), R), ["relative_abatement", "temperature"]),
    ("beyond 2150", ({}, (2020, 2200, 20), R), ({}, (2020, 2200, 20), R), ["relative_abatement", "temperature"]),
    ("decimal step", ({}, (2020, 2030, 2.5), R), ({}, (2020, 2030, 2.5), R), ["relative_abatement", "damage_costs"]),
    ("later start", ({}, (2020, 2060, 5), R), ({}, (2030, 2050, 5), R), ["relative_abatement", "global_emissions"]),
]


def check(prop, tier):
    h = harness.Harness(prop, tier, "One model is saved through MIMOSA.save with the values of the imposed variables symbolic; the file it writes is given to a second model in simulation mode. Every constraint that model gets is "
                        "compared, in both directions, with |variable - exported value| <= tolerance (plus the documented rounding of the table) in every common period and region.")
    import mimosa.concrete_model.simulation_mode.utils as su
    import mimosa.export.save as save_mod

    RegisterNumericType(Sym)
    real_read, real_to_csv = pd.read_csv, pd.DataFrame.to_csv

    def params(run):
        ov, g, regions = run
        p = M.small_params(regions=regions, start=g[0], end=g[1], dt=g[2])
        for k, v in ov.items():
            M.deep_update(p, k.split("."), v)
        return p

    def keys(m, v):
        comp = getattr(m, v)
        reg = comp.index_set().dimen > 1
        return [((t, r), t, r) for t in m.t for r in m.regions] if reg else [(t, t, "Global") for t in m.t]

    def simulation(run, names, path):
        ov = dict(run[0])
        ov.update({"simulation.simulationmode": True, "simulation.constraint_variables": {n: path for n in names}})
        return params((ov,) + run[1:])

    def own_names(run):
        return {c.name for c in M.build(params(run), symbolic=False, values={}).m.component_objects(pe.Constraint)}

    # ---------------------------------------------------------------- the real code on numbers
    def replay_for(src, dst, names, wild):
        def real(env):
            a = M.build(params(src), symbolic=False, values={})
            k, val = 0, {}
            for v in a.m.component_data_objects(pe.Var):
                k += 1
                v.set_value(0.5 + 0.001 * (k % 700), skip_validation=True)
            for n in names:
                for i, t, r in keys(a.m, n):
                    x = float(env.get(f"{n} {r} {t}", getattr(a.m, n)[i].value))
                    getattr(a.m, n)[i].set_value(x, skip_validation=True)
                    val[n, r, float(a.m.year(t))] = x
            with harness.scratch() as d, M.quiet():
                a.mimosa.save("first_run", folder=os.path.join(d, "out"))
                path = where(d, wild)
                b = M.build(simulation(dst, names, path), symbolic=False, values={})
            old = own_names(dst)
            extra = [c for c in b.m.component_objects(pe.Constraint, active=True) if c.name not in old]
            for n in names:
                for i, t, r in keys(b.m, n):
                    getattr(b.m, n)[i].set_value(val[n, r, float(b.m.year(t))], skip_validation=True)

            def worst():
                out = []
                for c in extra:
                    for i in c:
                        x, lo, hi = pe.value(c[i].body), pe.value(c[i].lower), pe.value(c[i].upper)
                        out.append((max(lo - x if lo is not None else -1e9, x - hi if hi is not None else -1e9), f"{c.name}[{i}]"))
                return max(out, default=(-1e9, "no constraint"))
            biggest = max(map(abs, val.values()))
            if worst()[0] > 1.5e-5 * biggest + 1e-9:
                return f"the exported values themselves violate {worst()[1]} by {worst()[0]:g}"
            for n in names:
                for i, t, r in keys(b.m, n):
                    comp = getattr(b.m, n)[i]
                    x = pe.value(comp)
                    for d in (1, -1):
                        comp.set_value(x + d * (0.0012 + 2e-5 * biggest), skip_validation=True)
                        ok = worst()[0] <= 0
                        comp.set_value(x, skip_validation=True)
                        if ok:
                            return f"{n} of {r} in period {t} may differ by {d * (0.0012 + 2e-5 * biggest):g} from its exported value {x}"
            return None
        return real

    def where(d, wild):
        return os.path.join(d, "out", "first_*.csv") if wild else os.path.join(d, "out", "first_run.csv")

    # ---------------------------------------------------------------- symbols
    def case(item):
        label, src, dst, names, wild = item
        real = replay_for(src, dst, names, wild)
        T, val = Texts(), {}

        def go():
            nonlocal T, val
            T, val = Texts(), {}
            a = M.build(params(src), symbolic=False, values={})
            k = 0
            for v in a.m.component_data_objects(pe.Var):
                k += 1
                v.set_value(0.5 + 0.001 * (k % 700), skip_validation=True)
            for n in names:
                for i, t, r in keys(a.m, n):
                    x = S.var(f"{n} {r} {t}")
                    getattr(a.m, n)[i].set_value(x, skip_validation=True)
                    val[n, r, float(a.m.year(t))] = x

            def to_csv(self, *aa, **kk):
                spec = kk.get("float_format")

                def cell(v):
                    if not isinstance(v, Sym):
                        return v
                    return spec(v) if callable(spec) else T.text(v, spec or "")
                return real_to_csv(self.map(cell), *aa, **kk)

            def back(x):
                e = T.get(x) if isinstance(x, str) else None
                if e is not None:
                    return e[1]
                try:
                    return float(x)
                except (TypeError, ValueError):
                    return x

            def read_csv(path, *aa, **kk):
                out = real_read(path, *aa, **kk)
                for c in out.columns:
                    if out[c].dtype == object and any(isinstance(x, str) and T.get(x) is not None for x in out[c]):
                        out[c] = pd.Series([back(x) for x in out[c]], dtype=object, index=out.index)
                return out

            with harness.scratch() as d, M.quiet():
                with harness.patched([(pd.DataFrame, "to_csv", to_csv), (Sym, "__str__", lambda s: T.text(s)), (Sym, "__format__", lambda s, spec: T.text(s, spec)), (save_mod, "float", VL.FloatShim)]):
                    a.mimosa.save("first_run", folder=os.path.join(d, "out"))
                with VL.interpolators():
                    return M.build(simulation(dst, names, where(d, wild)), patches={(pd, "read_csv"): read_csv, (su, "float"): VL.FloatShim})

        before = {f.id for _, _, f in M.build(params(dst), symbolic=True).constraints()}
        for res, exc, pcond, _ in h.explore(go, label=label, max_paths=600):
            if isinstance(exc, S.NeedFloat):
                h.no_answer("imposed", label, exc, real, [{}])
                continue
            if exc is not None:
                h.prove("builds", f"{label}: {harness.exc_text(exc)}", pcond, S.bconst(False), lambda env: tried(real, env))
                continue
            sm = res
            extra = [(n, i, f) for n, i, f in sm.constraints() if f.id not in before]
            rounding = []
            for sym, w, bound in T.by_text.values():
                if bound is not None:
                    rounding.append(_abs_le(S.sub(w, sym), bound[1], sym) if bound[0] == "rel" else S.and_(le(S.sub(w, sym), const(bound[1])), le(const(-bound[1]), S.sub(w, sym))))
            box = [b for x in val.values() for b in (le(const(-BOX), x), le(x, const(BOX)))]
            h.witness(box[:8] + rounding[:4], label)
            near = {}
            for n in names:
                for i, t, r in keys(sm.m, n):
                    x = S.var(f"{n}[{t},{r}]" if r != "Global" else f"{n}[{t}]")
                    y = val.get((n, r, float(sm.m.year(t))))
                    if y is None:
                        continue
                    near[x.args[0]] = (x, y, n, t, r)
            of = {}
            for n, i, f in extra:
                for v in S.variables(f):
                    of.setdefault(v, []).append(f)
            digits = [{x.args[0]: F(int(97654321 + 137911 * (k % 17)), 10**7) for k, x in enumerate(val.values())}]  # numbers with more digits than the table has
            tol = EPS + REL * BOX + SLACK * BOX
            for name, (x, y, n, t, r) in near.items():
                d = S.sub(x, y)
                h.prove("imposed", f"{label}: {n} of {r} in period {t} follows the exported value", list(pcond) + box + rounding + of.get(name, []),
                        S.and_(le(d, const(tol)), le(const(-tol), d)), real, points=digits)
            for n, i, f in extra:
                vs = [v for v in S.variables(f) if v in near]
                if not vs:
                    h.holds("nothing else", f"{label}: {n}[{i}] restricts none of the imposed variables", False, real)
                    continue
                asm2 = []
                for v in vs:
                    x, y, *_ = near[v]
                    asm2 += [S.eq(x, y)]
                # the exported solution itself satisfies it up to the rounding of the table
                g = widened(f, REL * BOX + SLACK * BOX)
                h.prove("feasible", f"{label}: the exported values satisfy {n}[{i}]", list(pcond) + box + rounding + asm2, g, real, points=digits)

    def widened(f, by):
        """An inequality (or several) relaxed by `by`."""
        if f.op in ("le", "lt"):
            return le(S.sub(f.args[0], f.args[1]), const(by))
        if f.op == "eq":
            d = S.sub(f.args[0], f.args[1])
            return S.and_(le(d, const(by)), le(const(-by), d))
        if f.op == "and":
            return S.and_(*[widened(a, by) for a in f.args])
        return f

    cases = CASES + (MORE if h.thorough else [])
    jobs = [(*c, wild) for c in cases for wild in ((False, True) if h.thorough or c[0] == "same run" else (False,))]
    h.parallel(jobs, case)
    return h.done(
        bounds=[f"{len(jobs)} pairs of runs (modules, grids and regions differ); all values in [-{BOX}, {BOX}] of the imposed variables in every period and region"],
        outside=["model periods for which the exported table has no column (interpolated or extended)", "years that the table's six digits do not represent exactly"],
        assumptions=["the spline of scipy is linear in the data and passes through its points", "printf-style number formats round to the stated number of digits"])


def tried(real, env):
    try:
        return real(env)
    except Exception as exc:  # noqa: BLE001
        return harness.exc_text(exc)


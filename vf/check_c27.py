"""C27: a component added as documented takes part in the model like the built-in ones."""
import copy
import os
import sys
from fractions import Fraction as F

import pandas as pd
import pyomo.environ as pe
import yaml

from . import harness, smt
from . import model as M
from . import sym as S
from . import values as VL
from .sym import const, eq, le, lt

SETTINGS = {
    "number": {"descr": "A number", "type": "float", "min": 0, "max": 10, "default": 2.5},
    "threshold": {"descr": "A year", "type": "float", "default": 2030},
    "quantity": {"descr": "A quantity", "type": "quantity", "unit": "emissions_unit", "default": "1500 MtCO2"},
    "switch": {"descr": "On or off", "type": "bool", "default": True},
    "column": {"descr": "Which column", "type": "enum", "values": ["first", "second.one"], "default": "first"},
}
DATASOURCE = {"descr": "Data of the new component", "type": "datasource",
              "default": {"variable": "Ext|Data", "unit": "emissionsrate_unit", "scenario": "{SSP}-{extension - column}", "model": "IMAGE", "file": "inputdata/data/data_IMAGE_SSP.csv"}}
REGIONS = ("CAN", "USA", "INDIA")

# where the component is hooked in, other settings, grid, regions, settings of the new component given by the user
CASES = [
    ("defaults", "sealevelrise", {}, (2020, 2050, 10), REGIONS, ()),
    ("everything given", "emissions", {}, (2020, 2050, 10), REGIONS, ("number", "threshold", "quantity", "switch", "column")),
    ("switched off, other column", "mitigation", {"model.emissiontrade module": "emissiontrade"}, (2020, 2036, 7), ("USA", "CAN"), ("number", "quantity", "off", "column", "regional")),
    ("one region, half years", "cobbdouglas", {"model.financialtransfer module": "globaldamagepool"}, (2020, 2021, 0.5), ("WEU",), ("number", "threshold", "regional")),
    ("last component", "welfare.cost_minimising", {"model.welfare module": "cost_minimising"}, (2029, 2041, 4), REGIONS, ("threshold", "regional", "column")),
    ("no damages", "damages.nodamage", {"model.damage module": "nodamage"}, (2020, 2040, 10), ("INDIA", "CAN"), ("quantity", "switch")),
]


def residual(f, env):
    """How much a formula is violated at a point."""
    o, a = f.op, f.args
    if o in ("eq", "le", "lt"):
        x, y = S.evaluate(a[0], env), S.evaluate(a[1], env)
        return abs(x - y) if o == "eq" else max(0.0, x - y)
    if o == "and":
        return max(residual(x, env) for x in a)
    if o == "or":
        return min(residual(x, env) for x in a)
    if o == "not" and a[0].op in ("le", "lt"):
        return max(0.0, S.evaluate(a[0].args[1], env) - S.evaluate(a[0].args[0], env))
    return 0.0 if S.evaluate(f, env) else 1.0


class Everywhere(dict):
    def __missing__(self, k):
        return 0.75


def check(prop, tier):
    h = harness.Harness(prop, tier, "A component written as the documentation of extensions describes (variables and constraints of all four kinds, soft equalities, conditional skipping, a setting of each type, a regional table column, a data "
                        "series) is hooked into the model construction; every constraint the model has gained is compared with the declared equation at each declared index, in both directions, for all values.")
    import mimosa.common.data.datastore as ds
    import mimosa.common.regional_params.regional_param_container as rpc
    import mimosa.mimosa as mm
    from mimosa import common
    from mimosa.common import AbstractModel, Constraint, GlobalConstraint, GlobalInitConstraint, Param, RegionalConstraint, RegionalInitConstraint, Var, quant
    from mimosa.common.config import parseconfig as pc
    from mimosa.common.config.utils import parsers
    from mimosa.common.pyomo_utils import GlobalSoftEqualityConstraint, RegionalSoftEqualityConstraint

    _ = (common, AbstractModel)
    base_load = yaml.safe_load

    def load(stream):
        d = base_load(stream)
        if isinstance(d, dict) and "economics" in d and "input" in d and isinstance(d["economics"], dict):
            d = copy.deepcopy(d)
            d["extension"] = copy.deepcopy(SETTINGS)
            d["input"]["variables"]["extdata"] = copy.deepcopy(DATASOURCE)
        return d

    # ---------------------------------------------------------------- the new component
    def component(m):
        m.ext_tr = Var(m.t, m.regions, units=quant.unit("emissionsrate_unit"))
        m.ext_t = Var(m.t, bounds=(0, 7))
        m.ext_r = Var(m.regions)
        m.ext_0 = Var()
        m.ext_number = Param(doc="::extension.number")
        m.ext_threshold = Param(doc="::extension.threshold")
        m.ext_quantity = Param(doc="::extension.quantity", units=quant.unit("emissions_unit"))
        m.ext_switch = Param(doc="::extension.switch", within=pe.Any)
        m.ext_column = Param(m.regions, doc=lambda params: "regional::extgroup." + params["extension"]["column"])
        m.ext_fixed_column = Param(m.regions, doc="regional::extgroup.third")
        m.ext_data = Param(m.t, m.regions, doc="timeandregional::extdata", units=quant.unit("emissionsrate_unit"))
        return [
            RegionalConstraint(lambda m, t, r: m.ext_tr[t, r] == m.ext_number * m.ext_data[t, r] + m.ext_column[r] * m.regional_emissions[t, r], name="ext_regional"),
            RegionalInitConstraint(lambda m, r: m.ext_r[r] >= m.ext_fixed_column[r] * m.ext_tr[0, r], "ext_regional_init"),
            GlobalConstraint(lambda m, t: m.ext_t[t] <= m.ext_quantity * m.temperature[t] if m.year(t) > pe.value(m.ext_threshold) else Constraint.Skip, name="ext_global"),
            GlobalInitConstraint(lambda m: m.ext_0 == sum(m.ext_r[r] for r in m.regions), name="ext_global_init"),
            RegionalConstraint(lambda m, t, r: m.ext_tr[t, r] <= 3 * m.ext_quantity),
            RegionalConstraint(lambda m, t, r: m.ext_tr[t, r] >= m.ext_tr[t - 1, r] - m.dt if t > 0 and pe.value(m.ext_switch) else Constraint.Skip),
            GlobalConstraint(lambda m, t: (-2, m.ext_t[t] - m.ext_0, 5)),
            RegionalInitConstraint(lambda m, r: m.ext_r[r] <= 90),
            GlobalInitConstraint(lambda m: m.ext_0 >= -70),
            GlobalSoftEqualityConstraint(lambda m, t: m.ext_t[t], lambda m, t: m.global_emissions[t] * m.ext_number, "ext_soft", epsilon=make[0]("eps"), ignore_if=lambda m, t: t == 0),
            GlobalSoftEqualityConstraint(lambda m, t: m.ext_t[t], lambda m, t: m.temperature[t], "ext_soft_abs", absolute_epsilon=make[0]("abs_eps")),
            GlobalSoftEqualityConstraint(lambda m, t: m.ext_t[t], lambda m, t: m.cumulative_emissions[t], absolute_epsilon=2),
            RegionalSoftEqualityConstraint(lambda m, t, r: m.ext_tr[t, r], lambda m, t, r: m.GDP_gross[t, r], epsilon=0.5, ignore_if=lambda m, t, r: t != 1),
            RegionalSoftEqualityConstraint(lambda m, t, r: m.ext_tr[t, r], lambda m, t, r: m.baseline[t, r], "ext_soft_regional", ignore_if=lambda m, t, r: m.year(t) <= pe.value(m.ext_threshold)),
        ]

    def declared(m, cfg, grid, regions, cell, datum, one):
        """The same equations over the symbols, written out."""
        year = [F(grid[0]) + k * F(grid[2]) for k in range(len(list(m.t)))]
        n, q, thr, sw = cfg["number"], cfg["quantity"], cfg["threshold"], cfg["switch"]

        def v(name, *idx):
            return S.var(name + ("[" + ",".join(map(str, idx)) + "]" if idx else ""))

        out = []
        for k, y in enumerate(year):
            late = lt(thr, const(y))
            out += [("ext_t bounds", le(const(0), v("ext_t", k))), ("ext_t bounds", le(v("ext_t", k), const(7)))]
            out.append((f"global, period {k}", S.implies(late, le(v("ext_t", k), S.mul(q, v("temperature", k))))))
            d = S.sub(v("ext_t", k), v("ext_0"))
            out.append((f"range, period {k}", S.and_(le(const(-2), d), le(d, const(5)))))
            if k:
                x = S.mul(v("global_emissions", k), n)
                out += [(f"soft equality, period {k}", le(v("ext_t", k), S.mul(S.add(const(1), v("eps")), x))), (f"soft equality, period {k}", le(S.mul(S.sub(const(1), v("eps")), x), v("ext_t", k)))]
            x = v("temperature", k)
            out += [(f"absolute soft equality, period {k}", le(v("ext_t", k), S.add(x, v("abs_eps")))), (f"absolute soft equality, period {k}", le(S.sub(x, v("abs_eps")), v("ext_t", k)))]
            x = v("cumulative_emissions", k)
            out += [(f"unnamed soft equality, period {k}", le(v("ext_t", k), S.add(x, const(2)))), (f"unnamed soft equality, period {k}", le(S.sub(x, const(2)), v("ext_t", k)))]
            for r in regions:
                e = v("ext_tr", k, r)
                out.append((f"regional, period {k}, {r}", eq(e, S.add(S.mul(n, datum(r, y)), S.mul(cell(cfg["column"], r), v("regional_emissions", k, r))))))
                out.append((f"unnamed regional, period {k}, {r}", le(e, S.mul(const(3), q))))
                if k and sw:
                    out.append((f"unnamed change, period {k}, {r}", le(S.sub(v("ext_tr", k - 1, r), const(F(grid[2]))), e)))
                if k == 1:
                    x = v("GDP_gross", k, r)
                    out += [(f"unnamed regional soft equality, period {k}, {r}", le(e, S.mul(const(F(3, 2)), x))), (f"unnamed regional soft equality, period {k}, {r}", le(S.mul(const(F(1, 2)), x), e))]
                x = v("baseline", k, r)
                out += [(f"regional soft equality, period {k}, {r}", S.implies(late, le(e, S.mul(const(F(1005, 1000)), x)))),
                        (f"regional soft equality, period {k}, {r}", S.implies(late, le(S.mul(const(F(995, 1000)), x), e)))]
        for r in regions:
            out.append((f"regional once, {r}", le(S.mul(cell("third", r), v("ext_tr", 0, r)), v("ext_r", r))))
            out.append((f"unnamed regional once, {r}", le(v("ext_r", r), const(90))))
        out.append(("once", eq(v("ext_0"), sum((v("ext_r", r) for r in regions), const(0)))))
        out.append(("unnamed once", le(const(-70), v("ext_0"))))
        _ = one
        return out

    # ---------------------------------------------------------------- building
    real_init = rpc.RegionalParamContainer.__init__
    make = [S.var]

    def init(self, filename, *a, **kw):
        real_init(self, filename, *a, **kw)
        d = self.data
        f = os.path.basename(filename)
        self.data = pd.DataFrame({c: [make[0](f"{f}|{c}|{r}") if pd.api.types.is_numeric_dtype(d[c]) and v == v else v for r, v in d[c].items()] for c in d.columns}, index=d.index, dtype=object)

    def interp(self, year, region, variable):
        info = self.params["input"]["variables"][variable]
        return make[0](f"{info['variable']}|{info['scenario']}|{region}|{float(year):g}")

    def hooks(name, extended):
        """Wherever the package refers to the component's get_constraints."""
        mod = sys.modules["mimosa.components." + name]
        real = mod.get_constraints

        def get_constraints(m):
            return list(real(m)) + (component(m) if extended else [])
        pairs = []
        for n, other in list(sys.modules.items()):
            if n.split(".")[0] == "mimosa":
                pairs += [(other, attr, get_constraints) for attr, val in list(vars(other).items()) if val is real]
        return pairs

    def construct(p, hook, extended):
        with harness.patched([(mm, "TransformationFactory", lambda n: M._NoTransform(n, [])), (rpc.RegionalParamContainer, "__init__", init), (ds.DataStore, "interp_data", interp), (ds.DataStore, "__init__", store)]
                             + hooks(hook, extended)), VL.shims(parsers, rpc), VL.symbolic_numerals(), M.quiet():
            mod = mm.MIMOSA(p)
            sm = M.SymModel(mod, mod.params, {})
            sm.constraints()
            return sm

    def store(self, params):
        self.params = params

    def case(item):
        label, hook, overrides, grid, regions, given = item
        with harness.scratch() as d, harness.patched([(yaml, "safe_load", load)]):
            with open(os.path.join(d, "newfile.csv"), "w", encoding="utf8") as fh:
                fh.write("region,first,second.one,third\n")
                for i, r in enumerate(pd.read_csv(os.path.join(os.path.dirname(rpc.__file__), "../../inputdata/regionalparams/mac.csv"))["region"]):
                    fh.write(f"{r},{i}.5,{i + 40}.25,{i + 70}\n")
            p = pc.load_params()
            p["regions"] = {r: {} for r in regions}
            p["time"] = {"start": grid[0], "end": grid[1], "dt": grid[2]}
            for k, v in overrides.items():
                M.deep_update(p, k.split("."), v)
            p["regional_parameter_files"]["extgroup"] = {"filename": os.path.join(d, "newfile.csv"), "regionstype": "IMAGE26"}
            e = p["extension"]
            cfg = {"number": const(F(5, 2)), "threshold": const(2030), "quantity": const(F(3, 2)), "switch": True, "column": "first"}
            if "number" in given:
                cfg["number"] = e["number"] = S.var("number")
            if "threshold" in given:
                cfg["threshold"] = e["threshold"] = S.var("threshold")
            if "quantity" in given:
                s = VL.magic_var("quantity")
                e["quantity"] = f"{VL.numeral(s)} MtCO2"
                cfg["quantity"] = S.mul(s, const(F(1, 1000)))
            if "off" in given:
                e["switch"] = cfg["switch"] = False
            if "column" in given:
                e["column"] = cfg["column"] = "second.one"
            manual = {}
            if "regional" in given:
                manual[cfg["column"], regions[-1]] = p["regions"][regions[-1]].setdefault("extgroup", {}).setdefault(cfg["column"], S.var("manual value"))

            def cell(c, r):
                return manual.get((c, r), S.var(f"newfile.csv|{c}|{r}"))

            def datum(r, y):
                return S.var(f"Ext|Data|SSP2-{cfg['column']}|{r}|{float(y):g}")

            domain = S.and_(le(const(0), cfg["number"]), le(cfg["number"], const(10)))
            before = None
            for sm, exc, _, _ in h.explore(lambda: construct(copy.deepcopy(p), hook, False), [domain], label=label):
                if exc is None:
                    before = {f.id for _, _, f in sm.constraints()}
            if before is None:
                h.rep.undecided(f"{label}: the model without the component is not built")
                return

            def plain(x, env):
                if isinstance(x, S.Sym):
                    return S.evaluate(x, env)
                if isinstance(x, dict):
                    return {k: plain(v, env) for k, v in x.items()}
                if isinstance(x, str):
                    for k, s in VL.MAGIC.items():
                        x = x.replace(k, repr(float(env[s.args[0]])))
                return x

            def real(env, f=None, name=None, full=True):
                env = Everywhere({k: float(v) for k, v in env.items()})
                make[0] = lambda n: env[n]
                try:
                    sm = construct(plain(copy.deepcopy(p), env), hook, True)
                    old = {(n, i) for n, i, _ in construct(plain(copy.deepcopy(p), env), hook, False).constraints() if "constraint_" not in n or not n.split("constraint_")[1].isdigit()}
                except ValueError as exc:
                    return f"the model is not built: {harness.exc_text(exc)}" if S.evaluate(domain, env) else None
                finally:
                    make[0] = S.var
                if not S.evaluate(domain, env):
                    return f"number = {env['number']} is accepted"
                ext = [(n, i, f) for n, i, f in sm.constraints() if any(v.startswith("ext_") for v in S.variables(f))]
                gone = [k for k in old if k not in {(n, i) for n, i, _ in sm.constraints()}]
                if gone:
                    return f"constraint {gone[0]} of the model without the component is missing"
                want = declared(sm.m, cfg, grid, regions, cell, datum, None)
                if f is not None and not full:  # only what is about the same new variables
                    near = {v for v in S.variables(f) if v.startswith("ext_")}
                    ext = [x for x in ext if near & set(S.variables(x[2]))]
                    want = [x for x in want if near & set(S.variables(x[1]))]
                if name is None and f is not None:
                    want = [x for x in want if x[1] is f]
                if name is not None:
                    ext = [x for x in ext if x[:2] == name]
                got = max(((residual(g, env), f"{n}[{i}]") for n, i, g in ext), default=(0.0, ""))
                exp = max(((residual(g, env), t) for t, g in want), default=(0.0, ""))
                if got[0] <= 1e-7 and exp[0] > 1e-5:
                    return f"{exp[1]} is violated by {exp[0]:g}, but every constraint of the model {'' if full else 'on these variables '}holds"
                if exp[0] <= 1e-7 and got[0] > 1e-5:
                    return f"{got[1]} of the model is violated by {got[0]:g}, although all declared equations hold"
                return None

            for sm, exc, pcond, _ in h.explore(lambda: construct(copy.deepcopy(p), hook, True), label=label):
                if isinstance(exc, S.NeedFloat):
                    h.no_answer("declared", label, exc, real, [{}])
                    continue
                if isinstance(exc, ValueError):
                    h.prove("domain", f"{label}: {harness.exc_text(exc)}", pcond, S.not_(domain), real)
                    continue
                if exc is not None:
                    h.prove("builds", f"{label}: {harness.exc_text(exc)}", pcond, S.bconst(False), lambda env: _tried(real, env))
                    continue
                h.prove("domain", f"{label}: accepted", pcond, domain, real)
                cons = sm.constraints()
                extra = [(n, i, f) for n, i, f in cons if f.id not in before]
                after = {f.id for _, _, f in cons}
                lost = [k for k in before if k not in after]
                h.holds("others", f"{label}: {len(lost)} constraints of the model without the component are missing or different", not lost)
                want = declared(sm.m, cfg, grid, regions, cell, datum, None)
                asm = list(pcond)
                h.witness(asm, label)
                def decide(key, text, near, everything, f, name=None):
                    if smt.prove(asm + near, f).status == "unsat":
                        h.prove(key, text, asm + near, f)
                        return
                    r = smt.prove(asm + everything, f, timeout=10000).status
                    if r != "unknown":
                        h.prove(key, text, asm + everything, f, lambda env: real(env, f, name))
                    else:
                        h.prove(key, text, asm + near, f, lambda env: real(env, f, name, False))

                by_var, everything = _index([(f"{n}[{i}]", f) for n, i, f in extra]), [f for _, _, f in extra]
                for t, f in want:
                    decide("declared", f"{label}: {t}", _near(by_var, f), everything, f)
                by_var, everything = _index(want), [f for _, f in want]
                for n, i, f in extra:
                    decide("nothing else", f"{label}: {n}[{i}] follows from the declared equations", _near(by_var, f), everything, f, (n, i))
                h.holds("periods", f"{label}: {len(list(sm.m.t))} periods", len(list(sm.m.t)) == -((F(grid[0]) - F(grid[1])) // F(grid[2])) + 1)

    h.parallel(CASES, case)
    return h.done(
        bounds=[f"one component with fourteen constraint objects, hooked in at {len(CASES)} places; 3-4 periods, 1-3 regions; all values of its settings, tolerances, table cells and data, of all variables"],
        outside=["a component with an objective of its own; export of its variables (C22)"],
        assumptions=["data series and regional tables are taken cell by cell (C19, C20)"])


def _index(fs):
    out = {}
    for t, f in fs:
        for v in S.variables(f):
            if v.startswith("ext_"):
                out.setdefault(v, []).append(f)
    return out


def _near(by_var, f):
    """Formulas about the same new variables."""
    seen, out = set(), []
    for v in sorted(S.variables(f)):
        for g in by_var.get(v, []):
            if g.id not in seen:
                seen.add(g.id)
                out.append(g)
    return out


def _tried(real, env):
    try:
        return real(env)
    except Exception as exc:  # noqa: BLE001
        return harness.exc_text(exc)

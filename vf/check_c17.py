"""C17: every configured value arrives at the model parameter it is documented for."""
import copy
from fractions import Fraction as F

from . import documented, harness
from . import model as M
from . import sym as S
from . import values as VL
from .configs import F as FLAGS
from .sym import const, eq, le

# model parameter -> setting (documented meaning of each parameter)
SETTING = {
    "alpha": "economics.GDP.alpha", "dk": "economics.GDP.depreciation of capital", "sr": "economics.GDP.savings rate", "ignore_damages": "economics.damages.ignore damages",
    "elasmu": "economics.elasmu", "inequal_aversion": "economics.inequal_aversion", "PRTP": "economics.PRTP",
    "MAC_gamma": "economics.MAC.gamma", "MAC_beta": "economics.MAC.beta", "LBD_rate": "economics.MAC.LBD_rate", "LBD_scaling": "economics.MAC.LBD_scaling", "LOT_rate": "economics.MAC.LOT_rate",
    "rel_mitigation_costs_min_level": "economics.MAC.rel_mitigation_costs_min_level",
    "use_carbon_intensity_for_baseline": "emissions.baseline carbon intensity", "cumulative_emissions_trapz": "emissions.cumulative_emissions_trapz",
    "budget": "emissions.carbonbudget", "inertia_global": "emissions.inertia.global", "inertia_regional": "emissions.inertia.regional",
    "global_min_level": "emissions.global min level", "regional_min_level": "emissions.regional min level",
    "non_increasing_emissions_after_2100": "emissions.non increasing emissions after 2100", "no_pos_emissions_after_budget_year": "emissions.not positive after budget year",
    "T0": "temperature.initial", "TCRE": "temperature.TCRE", "temperature_target": "temperature.target", "perc_reversible_damages": "economics.damages.percentage reversible",
    "damage_scale_factor": "economics.damages.scale factor",
    "effort_sharing_regime": "effort sharing.regime", "percapconv_year": "effort sharing.percapconv_year",
    "min_rel_payment_level": "economics.emission trade.min rel payment level", "max_rel_payment_level": "economics.emission trade.max rel payment level",
}
DATA = {"population": "population", "baseline_GDP": "GDP", "baseline_emissions": "emissions"}
MORTALITY = {f"mortality_param_{g}_{c}": f"{g}_{c}" for g in ("oldest", "older", "young") for c in "abc"}
# other units a quantity may be given in: text and factor to the model's unit
UNITS = {"economics.MAC.gamma": [("USD2005/tCO2", F(1, 1000)), ("USD2010/tCO2", F(111, 100000))], "economics.MAC.LBD_scaling": [("GtCO2", F(1)), ("MtCO2", F(1, 1000))],
         "emissions.carbonbudget": [("GtCO2", F(1)), ("TtCO2", F(1000))], "temperature.target": [("delta_degC", F(1)), ("mK", F(1, 1000))], "temperature.initial": [("delta_degC", F(1)), ("kelvin", F(1))],
         "temperature.TCRE": [("delta_degC/(TtCO2)", F(1, 1000)), ("delta_degC/GtCO2", F(1))],
         "emissions.global min level": [("GtCO2/yr", F(1)), ("MtCO2/yr", F(1, 1000))], "emissions.regional min level": [("GtCO2/yr", F(1)), ("MtCO2/month", F(12, 1000))]}


def regional_source(name, p):
    """(category, column) of the regional table a regional parameter is documented to come from, or a literal."""
    d = p["economics"]["damages"]
    q, ad, comb = d["quantile"], "Ad" if d["coacch_slr_withadapt"] else "NoAd", d["coacch_combined_slr_nonslr_damages"]
    if name == "init_capitalstock_factor":
        return "economics", "init_capital_factor"
    if name == "MAC_scaling_factor":
        return "MAC", p["economics"]["MAC"]["regional calibration factor"]
    if name in MORTALITY:
        return "mortality", MORTALITY[name]
    if name.startswith("damage_noslr_"):
        x = name[len("damage_noslr_"):]
        if comb:
            return {"form": "Robust-Quadratic", "b1": ("COACCH", f"combined_b1_{ad}-q{q}"), "b2": ("COACCH", f"combined_b2_{ad}-q{q}"), "b3": 0.0, "a": 1.0}[x]
        return "COACCH", f"NoSLR_a (q={q})" if x == "a" else f"NoSLR_{x}"
    if name.startswith("damage_slr_"):
        x = name[len("damage_slr_"):]
        if comb:
            return {"form": "Robust-Linear"}.get(x, 0.0)
        return "COACCH", f"SLR-{ad}_a (q={q})" if x == "a" else f"SLR-{ad}_{x}"
    return None


REGIONS = ("CAN", "USA", "INDIA")
CONFIGS = [
    ("default", ()), ("limits", ("budget", "target", "ginertia")), ("trade, transfers", ("trade", "dmgpool", "cost")), ("cost pool", ("pool", "budget")), ("no damage, global costs", ("nodmg", "globalcosts", "cost")),
    ("inequality aversion", ("ineq", "nointensity", "notrapz")), ("combined damages", ("combined", "q95")), ("combined damages without adaptation", ("combined", "noadapt")), ("no adaptation", ("noadapt", "q95", "kappa", "ignoredmg")),
    ("per capita", ("percap", "trade", "conv2030")), ("equal costs", ("eqtot", "target")), ("nothing limited", ("nolimits", "ineq", "globalcosts")),
]


def check(prop, tier):
    h = harness.Harness(prop, tier, "MIMOSA is constructed with a symbol in every numeric setting, quantity, regional table cell and data value; the value of every parameter of the built model must be "
                        "the symbol of the documented source for its own region and period (or the override), proven equal for all values.")
    import mimosa.common.data.datastore as ds
    import mimosa.common.regional_params.regional_param_container as rpc
    import mimosa.mimosa as mm
    import pandas as pd
    import pyomo.environ as pe
    from mimosa.common.config import parseconfig as pc
    from mimosa.common.config.utils import get_nested, parsers

    settings = documented.settings(pc.load_default_yaml())
    nodes = {".".join(k): n for k, n in settings}
    seen_params = set()

    def symbolic_params(flags, unit_variant=0, overrides=None, regions=REGIONS, grid=(2020, 2030, 5)):
        """Settings with a symbol everywhere; returns (params, assumptions, {setting: expected model value})."""
        p = copy.deepcopy(pc.load_params())
        p["regions"] = {r: {} for r in regions}
        p["time"] = {"start": grid[0], "end": grid[1], "dt": grid[2]}
        for f in flags:
            for path, v in FLAGS[f].items():
                M.deep_update(p, path, v)
        assume, expect = [], {}
        for name, node in nodes.items():
            keys = name.split(".")
            cur = get_nested(p, keys)
            if keys[0] == "time" or (cur is False and node["type"] != "bool"):
                expect[name] = cur
            elif node["type"] in ("float", "int") and name != "effort sharing.percapconv_year":
                s = S.var(name)
                M.deep_update(p, keys, s)
                for k, mk in (("min", lambda b: le(const(b), s)), ("max", lambda b: le(s, const(b)))):
                    if node.get(k) is not None:
                        assume.append(mk(node[k]))
                expect[name] = s
            elif node["type"] == "quantity":
                unit, k = UNITS[name][unit_variant]
                s = VL.magic_var(name)
                M.deep_update(p, keys, f"{VL.numeral(s)} {unit}")
                expect[name] = S.mul(s, const(k))
            else:
                expect[name] = cur
        # the model refers to a variable that does not exist when damages are partly irreversible and no overshoot is defined (known, C24)
        if isinstance(expect.get("economics.damages.percentage reversible"), S.Sym):
            assume.append(eq(S.var("economics.damages.percentage reversible"), const(1)))
        for path, v in (overrides or {}).items():
            M.deep_update(p, list(path), v)
        return p, assume, expect

    real_init = rpc.RegionalParamContainer.__init__

    make = [S.var]  # what stands in a table cell: a symbol, or (replay) a number

    def init(self, filename, *a, **kw):
        real_init(self, filename, *a, **kw)
        d = self.data
        self.data = pd.DataFrame({c: [make[0](f"{filename}|{c}|{r}") if pd.api.types.is_numeric_dtype(d[c]) and v == v else v for r, v in d[c].items()] for c in d.columns}, index=d.index, dtype=object)

    def interp(self, year, region, variable):
        info = self.params["input"]["variables"][variable]
        return make[0](f"{info['variable']}|{region}|{float(year):g}")

    def number(env, n):
        # distinct values where the counterexample leaves them open
        return float(env[n]) if n in env else 1.0 + (sum(map(ord, n)) % 997) / 997.0

    def plain(x, env):
        if isinstance(x, S.Sym):
            return S.evaluate(x, {n: number(env, n) for n in S.variables(x)})
        if isinstance(x, dict):
            return {k: plain(v, env) for k, v in x.items()}
        if isinstance(x, list):
            return [plain(v, env) for v in x]
        if isinstance(x, str):
            for k, s in VL.MAGIC.items():
                if k in x:
                    x = x.replace(k, repr(number(env, s.args[0])))
        return x

    def replay_build(p, what_name, idx, want):
        def replay(env):
            p2 = plain(p, env)
            make[0] = lambda n: number(env, n)
            try:
                m = construct(p2).concrete_model
            finally:
                make[0] = S.var
            comp = getattr(m, what_name)
            got, exp = pe.value(comp[idx]), plain(S.lift(want), env)
            ok = abs(got - exp) <= 1e-9 * max(abs(got), abs(exp))
            return None if ok else f"the built model has {what_name}{'' if idx is None else [idx]} = {got} instead of {exp}"
        return replay

    def construct(p):
        tlog = []
        with harness.patched([(mm, "TransformationFactory", lambda n: M._NoTransform(n, tlog)), (rpc.RegionalParamContainer, "__init__", init), (ds.DataStore, "interp_data", interp)]), \
                VL.shims(parsers, rpc), VL.symbolic_numerals(), M.quiet():
            return mm.MIMOSA(p)

    def raw_table(p, category):
        import os

        path = os.path.join(os.path.dirname(rpc.__file__), "../../", p["regional_parameter_files"][category]["filename"])
        return pd.read_csv(path)

    TABLES = {}

    def expected_regional(p, src, r):
        if not isinstance(src, tuple):
            return src
        cat, col = src
        info = p["regional_parameter_files"][cat]
        if info["regionstype"] == p["regionstype"]:
            if cat not in TABLES:
                TABLES[cat] = raw_table(p, cat).set_index("region")
            v = TABLES[cat].loc[r, col]
            return v if isinstance(v, str) or v != v else S.var(f"{info['filename']}|{col}|{r}")
        return ("mapped", f"{info['filename']}|{col}|{r}")

    def check_model(label, flags, p, assume, expect, overrides=None, custom=None, grid=(2020, 2030, 5)):
        """overrides: {(param, region): value}; custom: {param: {index: value}}."""
        def go():
            return construct(copy.deepcopy(p))

        paths = h.explore(go, assume, label=label)
        if not paths:
            h.rep.undecided(f"{label}: no path")
        for mod, exc, pcond, _ in paths:
            if isinstance(exc, S.NeedFloat):
                h.rep.undecided(f"{label}: {harness.exc_text(exc)}")
                continue
            if not h.holds("build", f"{label}: {harness.exc_text(exc) if exc else ''}", exc is None):
                continue
            m = mod.concrete_model
            cond = list(assume) + pcond
            todo = []
            for comp in m.component_objects(pe.Param):
                name = comp.name
                if custom and name in custom:
                    src = ("custom", None)
                elif name in SETTING:
                    src = ("setting", SETTING[name])
                elif name in DATA:
                    src = ("data", DATA[name])
                else:
                    rs = regional_source(name, p)
                    if rs is None:
                        continue
                    src = ("regional", rs)
                seen_params.add(name)
                for idx in comp:
                    val = comp[idx]
                    val = val.value if hasattr(val, "value") and not isinstance(val, S.Sym) else val
                    r = idx[-1] if isinstance(idx, tuple) else idx
                    if src[0] == "custom":
                        want = custom[name][idx]
                    elif (name, r) in (overrides or {}):
                        want = overrides[(name, r)]
                    elif src[0] == "setting":
                        want = expect[src[1]]
                    elif src[0] == "data":
                        info = get_nested(p, ["input", "variables", src[1]])
                        want = S.var(f"{info['variable']}|{r}|{float(grid[0] + idx[0] * grid[2]):g}")
                    else:
                        want = expected_regional(p, src[1], r)
                    todo.append((f"{name}[{idx}]" if idx is not None else name, val, want, name, idx))
                n_want = {None: 1}.get(next(iter(comp), None), None)
                if src[0] == "data":
                    n = int((grid[1] - grid[0]) / grid[2]) + 1
                    h.holds("index " + name, f"{label}: {name} has {len(comp)} values", len(comp) == n * len(p["regions"]) or n_want == 1)
                elif src[0] == "regional":
                    h.holds("index " + name, f"{label}: {name} has {len(comp)} values", set(comp) == set(p["regions"]))
            for what, val, want, name, idx in todo:
                key = "parameter " + what.split("[")[0]
                text = f"{label}: {what}"
                if isinstance(want, tuple) and want[0] == "mapped":
                    ok = isinstance(val, S.Sym) and val.op == "var" and val.args[0] == want[1] or not isinstance(val, S.Sym) and _nonnum(val)
                    h.holds(key, f"{text} is {val!r} instead of {want[1]}", ok)
                elif isinstance(want, (bool, str)) or want is None or (isinstance(want, float) and want != want):
                    h.holds(key, f"{text} is {val!r} instead of {want!r}", (val is want or str(val) == str(want)) and isinstance(val, type(want)))
                elif S.lift(val) is None or (isinstance(val, float) and val != val) or isinstance(val, bool):
                    h.holds(key, f"{text} is {val!r} instead of {want!r}", False)
                else:
                    v, w = S.lift(val), S.lift(want)
                    tol = S.mul(const(F(1, 10**9)), w)
                    d = S.sub(v, w)
                    goal = eq(v, w) if v.id == w.id or not S.variables(w) else S.or_(eq(v, w), S.and_(le(d, tol), le(S.neg(tol), d)), S.and_(le(tol, d), le(d, S.neg(tol))))
                    h.prove(key, f"{text} is {S.show(v)} and not {S.show(w)}" if v.id != w.id else text, cond, goal, replay_build(p, name, idx, want))

    # ---------------------------------------------------------------- all settings at once
    for label, flags in CONFIGS:
        for variant in (0, 1):
            if variant and not h.thorough and label not in ("default", "limits", "nothing limited"):
                continue
            p, assume, expect = symbolic_params(flags, variant)
            check_model(f"{label}, units {variant}", flags, p, assume, expect)
    missing = [n for n in list(SETTING) + list(DATA) + list(MORTALITY) + ["init_capitalstock_factor"] if n not in seen_params]
    h.rep.cov["parameters"] = sorted(seen_params)
    if missing:
        h.rep.cov["parameters_never_present"] = missing

    # ---------------------------------------------------------------- every choice that selects a column of the regional tables
    quantiles, kappas = nodes["economics.damages.quantile"]["values"], nodes["economics.MAC.regional calibration factor"]["values"]
    choices = [(quantiles[i % len(quantiles)], kappas[i % len(kappas)], ("noadapt",) if i % 2 else ()) for i in range(2 * max(len(quantiles), len(kappas)) - 1 if h.thorough else max(len(quantiles), len(kappas)))]
    choices += [(q, kappas[0], ("noadapt",) if i % 2 == 0 else ()) for i, q in enumerate(quantiles)]
    for q, kappa, flags in choices:
        p, assume, expect = symbolic_params(flags, overrides={("economics", "damages", "quantile"): q, ("economics", "MAC", "regional calibration factor"): kappa})
        for name, v in (("economics.damages.quantile", q), ("economics.MAC.regional calibration factor", kappa)):
            if name in expect:
                expect[name] = v
        check_model(f"quantile {q}, {kappa}{', no adaptation' if flags else ''}", flags, p, assume, expect)

    # ---------------------------------------------------------------- other data files, other grids
    p, assume, expect = symbolic_params(())
    p["input"]["variables"]["GDP"], p["input"]["variables"]["population"] = dict(p["input"]["variables"]["GDP"]), dict(p["input"]["variables"]["population"])
    p["time"] = {"start": 2015, "end": 2036, "dt": 10}
    check_model("other grid", (), p, assume, expect, grid=(2015, 2045, 10))

    # ---------------------------------------------------------------- manual regional values win, only for their region
    for label, flags, targets in (("manual values", (), {"init_capitalstock_factor": ("economics", "init_capital_factor"), "damage_noslr_b1": ("COACCH", "NoSLR_b1"), "damage_slr_b2": ("COACCH", "SLR-Ad_b2"),
                                                          "mortality_param_older_b": ("mortality", "older_b")}),
                                  ("manual values, no adaptation, other quantile", ("noadapt", "q95"), {"damage_noslr_a": ("COACCH", "NoSLR_a (q=0.95)"), "damage_slr_a": ("COACCH", "SLR-NoAd_a (q=0.95)")}),
                                  ("manual values, combined", ("combined",), {"damage_noslr_b2": ("COACCH", "combined_b2_Ad-q0.5")})):
        for chosen in (REGIONS[0], REGIONS[2]):
            p, assume, expect = symbolic_params(flags)
            over = {}
            mac = ["MAC_scaling_factor"]
            tg = dict(targets)
            for n in mac:
                tg[n] = ("MAC", p["economics"]["MAC"]["regional calibration factor"])
            for n, (cat, col) in tg.items():
                s = S.var(f"manual {n}")
                p["regions"][chosen].setdefault(cat, {})[col] = s
                over[(n, chosen)] = s
            check_model(f"{label} for {chosen}", flags, p, assume, expect, overrides=over)
            # a falsy manual value also wins
            p2 = copy.deepcopy(p)
            over2 = {}
            for n, (cat, col) in tg.items():
                p2["regions"][chosen][cat][col] = 0.0
                over2[(n, chosen)] = 0.0
            check_model(f"{label} of zero for {chosen}", flags, p2, assume, expect, overrides=over2)

    # ---------------------------------------------------------------- custom mappings win over everything
    for label, flags, names in (("custom mapping", (), ["PRTP", "MAC_gamma", "init_capitalstock_factor", "population", "damage_noslr_b1", "T0"]),
                                ("custom mapping, limits", ("budget", "target", "ginertia", "nodmg"), ["budget", "temperature_target", "inertia_global", "alpha"]),
                                ("custom mapping, combined damages", ("combined",), ["damage_noslr_b1", "damage_noslr_a", "damage_slr_b1", "sr"])):
        p, assume, expect = symbolic_params(flags)
        custom = {}
        for n in names:
            if n in DATA:
                custom[n] = {(t, r): S.var(f"custom {n}[{t},{r}]") for t in range(3) for r in REGIONS}
            elif n in SETTING:
                custom[n] = {None: S.var(f"custom {n}")}
            else:
                custom[n] = {r: S.var(f"custom {n}[{r}]") for r in REGIONS}
        p["simulation"]["custom_mapping"] = custom
        check_model(label, flags, p, assume, expect, custom=custom)
        manual = dict(custom)
        if "init_capitalstock_factor" in names:
            p = copy.deepcopy(p)
            p["regions"]["USA"]["economics"] = {"init_capital_factor": S.var("manual")}
            check_model(label + " and a manual value", flags, p, assume, expect, custom=manual)
    return h.done(
        bounds=[f"{len(CONFIGS)} combinations of modules and flags (some with two unit variants), 3 regions, 3 periods; all values of all numeric settings, quantities, regional table cells and data", "manual values for 1 of 3 regions, custom mappings of up to 6 parameters"],
        outside=["interpolation of data (C19), region mapping (C20), time grid (C18); percentage reversible below 1 (C24)"],
        assumptions=["documented source of every parameter: table in check_c17.py, written from the parameter documentation"])


def _nonnum(v):
    return isinstance(v, str) or v is None or (isinstance(v, float) and v != v)

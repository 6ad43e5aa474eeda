import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from seed import add
H = "from demo_lib import *\n"

add("s07-softmin-scale", "C12",
    [("mimosa/common/pyomo_utils.py", "    return 25.0 / scale", "    return 25.0 / scale if scale <= 1 else 25.0 / scale**2")],
    "a smooth function with a scale above 1", "Above scale 1 the error of the smooth minimum grows with the square of the scale.",
    H + '''
from mimosa.common.pyomo_utils import soft_min
for scale in (1.0, 0.01, 50.0):
    v = float(soft_min(0.0 * scale - 1e-9, scale))
    v = float(soft_min(0.1 * scale, scale)) - 0.1 * scale
    expect(0 <= v <= 0.05 * scale, f"soft_min(0.1 scale, scale={scale}) exceeds its argument by {v}")
''')

add("s08-enum-substring", "C13",
    [("mimosa/common/config/utils/parsers.py", "if value not in self.allowed_values:", "if value not in self.allowed_values and str(value) not in \" \".join(map(str, self.allowed_values)):")],
    "a value that is part of a listed value", "A choice that is only part of a listed value is accepted.",
    H + '''
def ok(v):
    p = params()
    p["SSP"] = v
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            from mimosa.common.config.parseconfig import check_params
            check_params(p)
        return True
    except ValueError:
        return False
expect(ok("SSP2"), "SSP2 accepted")
expect(not ok("SSP"), "SSP rejected")
expect(not ok("2"), "2 rejected")
''')

add("s09-deep-unknown", "C14",
    [("mimosa/common/config/parseconfig.py", "if isinstance(node, dict) and parser_type not in [\"dict\", \"datasource\"]:", "if isinstance(node, dict) and parser_type is None and len(keys) == 1:")],
    "an unknown setting two groups deep", "Unknown settings in a nested group are silently ignored.",
    H + '''
def rejected(over):
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            from mimosa.common.config.parseconfig import check_params
            check_params(over)
        return False
    except Exception:
        return True
expect(not rejected({"emissions": {"inertia": {"regional": -0.05}}}), "known settings accepted")
expect(rejected({"emissions": {"nonsense": 1}}), "unknown setting rejected")
expect(rejected({"emissions": {"inertia": {"nonsense": 1}}}), "unknown nested setting rejected")
''')

add("s10-default-unit-order", "C16",
    [("mimosa/common/units.py", 'units = units.replace(key, f"({value})")', 'units = units.replace(key, value)')],
    "a default unit inside the denominator of a compound unit", "A denominator made of a compound default unit loses its brackets.",
    H + '''
from mimosa.common import quant
got = quant("1 trillion USD2005/GtCO2", "currency_unit/emissionsrate_unit")
expect(close(got, 1.0), f"1 trillion USD2005/GtCO2 is {got}")
''')

add("s11-regional-zero", "C17",
    [("mimosa/common/regional_params/main.py", "            value = self.params[\"regions\"][region][category][paramname]\n        except (KeyError, TypeError):\n            value = self.categories[category].get(paramname, region)\n",
      "            value = self.params[\"regions\"][region][category][paramname]\n        except (KeyError, TypeError):\n            value = None\n        if not value:\n            value = self.categories[category].get(paramname, region)\n")],
    "a regional parameter given as 0", "A manual regional value of zero is replaced by the data file's value.",
    H + '''
import mimosa.mimosa as mm
mm.TransformationFactory = lambda n: type("T", (), {"apply_to": lambda s, m: None})()
p = params()
p["regions"]["CAN"] = {"COACCH": {"NoSLR_b1": 0.0}}
with contextlib.redirect_stdout(io.StringIO()):
    m = MIMOSA(p).concrete_model
expect(pe.value(m.damage_noslr_b1["CAN"]) == 0.0, "manual value 0 is used")
''')

add("s12-last-year-clipped", "C18",
    [("mimosa/concrete_model/instantiate_params.py", "self.abstract_model.year = lambda t: t_start + t * dt", "self.abstract_model.year = lambda t: np.minimum(t_start + t * dt, max(t_end, 2100))")],
    "a time step that does not divide the horizon, with an end year of 2100 or later", "The last period's year is clipped to the end year.",
    H + '''
m = model(start=2020, end=2105, dt=10)
years = [float(m.year(t)) for t in m.t]
expect(years == [2020.0 + 10 * k for k in range(10)], f"years {years[-3:]}")
''')

add("s13-data-cache-scenario", "C19",
    [("mimosa/common/data/datastore.py", "key = (model, scenario, region, variablename)", "key = (model, region, variablename)")],
    "two models with different scenarios built one after the other", "The second model gets the data of the first one's scenario.",
    H + '''
def pop(ssp):
    return pe.value(model({"SSP": ssp}).population[3, "INDIA"])
import subprocess
a = pop("SSP1")
b = pop("SSP3")
expect(not close(a, b, 1e-3), f"SSP1 {a} and SSP3 {b} differ")
''')

add("s14-mapper-median", "C20",
    [("mimosa/common/regional_params/region_mappers.py", 'col_name: "mean" if', 'col_name: "median" if')],
    "a model region to which three or more source regions are mapped", "Mapped parameters are the median instead of the mean of the source regions.",
    H + '''
import pandas as pd
from mimosa.common.regional_params.region_mappers import RegionMapper
mp = RegionMapper.__new__(RegionMapper)
mp.mapping = pd.DataFrame({"A": ["x", "y", "z"], "B": ["g", "g", "g"]})
out = mp.map_regions(pd.DataFrame({"region": ["x", "y", "z"], "p": [1.0, 2.0, 9.0]}), "A", "B")
expect(close(float(out["p"].iloc[0]), 4.0), f"mean of 1, 2, 9 is {float(out['p'].iloc[0])}")
''')

add("s15-simulation-file-cache", "C21",
    [("mimosa/concrete_model/simulation_mode/set_constraints.py", "    if filepath not in data_cache:\n        data_cache[filepath] = read_csv(filepath)\n    imported_data = data_cache[filepath]\n",
      "    if filepath in data_cache:\n        return data_cache[filepath]\n    imported_data = read_csv(filepath)\n"),
     ("mimosa/concrete_model/simulation_mode/set_constraints.py", "    interp_data = InterpolatingData(fixed_data)\n    return interp_data", "    interp_data = InterpolatingData(fixed_data)\n    data_cache[filepath] = interp_data\n    return interp_data")],
    "two variables imposed from the same file", "The second variable gets the first one's pathway.",
    H + '''
import os, shutil, tempfile
d = tempfile.mkdtemp()
try:
    f = os.path.join(d, "in.csv")
    years = list(range(2020, 2061, 5))
    with open(f, "w") as fh:
        fh.write("Variable,Region,Unit," + ",".join(map(str, years)) + "\\n")
        for n, v in enumerate(("relative_abatement", "capital_stock")):
            for k, r in enumerate(("CAN", "USA", "INDIA")):
                fh.write(f"{v},{r},x," + ",".join(str(0.1 + n + 0.01 * k) for _ in years) + "\\n")
    m = model({"simulation.simulationmode": True, "simulation.constraint_variables": {"relative_abatement": f, "capital_stock": f}})
finally:
    shutil.rmtree(d)
from pyomo.core.expr.visitor import identify_variables
def allowed(var, x):
    var.set_value(x, skip_validation=True)
    return all((c.lower is None or pe.value(c.body) >= pe.value(c.lower) - 1e-9) and (c.upper is None or pe.value(c.body) <= pe.value(c.upper) + 1e-9)
               for c in m.component_data_objects(pe.Constraint, active=True) if [id(v) for v in identify_variables(c.body)] == [id(var)])
expect(allowed(m.relative_abatement[2, "USA"], 0.11), "abatement follows its pathway")
expect(allowed(m.capital_stock[2, "USA"], 1.11), "capital stock follows its pathway")
expect(not allowed(m.capital_stock[2, "USA"], 0.11), "and nothing else")
''')

add("s16-export-year-labels", "C22",
    [("mimosa/export/save.py", 'years = ["{:g}".format(year) for year in m.year(np.array(m.t))]', 'years = ["{:.0f}".format(year) for year in m.year(np.array(m.t))]')],
    "a time step that is not a whole number of years", "Several periods are exported under the same year.",
    H + '''
import os, shutil, tempfile
from mimosa.export.save import save_output
m = model(start=2020, end=2023, dt=0.5)
for v in m.component_data_objects(pe.Var): v.set_value(1.0, skip_validation=True)
d = tempfile.mkdtemp()
try:
    with contextlib.redirect_stdout(io.StringIO()):
        save_output({}, m, "run", folder=d)
    head_line = open(os.path.join(d, "run.csv")).readline().strip().split(",")
finally:
    shutil.rmtree(d)
expect([float(y) for y in head_line[3:]] == [2020 + 0.5 * k for k in range(7)], f"years {head_line[3:]}")
''')

add("s17-stale-status", "C23",
    [("mimosa/mimosa.py", "        self.status = None  # Not started yet\n\n        if use_neos:", "        if use_neos:")],
    "a second solve in which the solver itself fails, after a successful one", "The status of the earlier solve remains after a failed one.",
    H + '''
import types
import mimosa.mimosa as mm
from pyomo.opt import SolverStatus
mm.TransformationFactory = lambda n: type("T", (), {"apply_to": lambda s, m: None, "update_variables": lambda s, m: None})()
with contextlib.redirect_stdout(io.StringIO()):
    mod = MIMOSA(params())
mod.concrete_model.NPV[mod.concrete_model.tf].set_value(1.0)
state = {"fail": False}
class Opt:
    def __init__(self): self.options = {}
    def solve(self, *a, **k):
        if state["fail"]: raise RuntimeError("solver not available")
        return types.SimpleNamespace(solver=types.SimpleNamespace(status=SolverStatus.ok, termination_condition="optimal"))
mm.SolverFactory = lambda *a, **k: Opt()
with contextlib.redirect_stdout(io.StringIO()):
    mod.solve()
expect(mod.status == SolverStatus.ok, "first solve ok")
state["fail"] = True
try:
    with contextlib.redirect_stdout(io.StringIO()):
        mod.solve()
    expect(False, "error raised")
except RuntimeError:
    pass
expect(mod.status != SolverStatus.ok, f"status after the failed solve: {mod.status}")
''')

add("s18-transfer-nodamage", "C24",
    [("mimosa/components/financialtransfer/globaldamagepool.py", ">= -m.damage_costs[t, r] * m.GDP_gross[t, r],", ">= -(m.damage_costs_non_slr[t, r] + m.damage_costs_slr[t, r])\n                * m.GDP_gross[t, r],")],
    "the damage pool together with the no-damage module", "The combination of the modules nodamage and globaldamagepool cannot be built.",
    H + '''
for d in ("COACCH", "nodamage"):
    try:
        model({"model.damage module": d, "model.financialtransfer module": "globaldamagepool"})
        ok = True
    except Exception as e:
        ok = False
    expect(ok, f"{d} with globaldamagepool builds")
''')

add("s19-combined-noadapt", "C10",
    [("mimosa/concrete_model/instantiate_params.py", '"COACCH", f"combined_b2_{adapt_prfx}-q{damage_quantile}"', '"COACCH", f"combined_b2_Ad-q{damage_quantile}"')],
    "combined damages without sea-level adaptation", "The quadratic coefficient of the combined damage function is the one with adaptation.",
    H + '''
import pandas as pd
m = model({"economics.damages.coacch_combined_slr_nonslr_damages": True, "economics.damages.coacch_slr_withadapt": False})
import mimosa as _m, os
f = load_params()["regional_parameter_files"]["COACCH"]["filename"]
d = pd.read_csv(os.path.join(os.path.dirname(_m.__file__), f)).set_index("region")
for r in m.regions:
    want = float(d.loc["I_" + r, "combined_b2_NoAd-q0.5"])
    expect(close(pe.value(m.damage_noslr_b2[r]), want), f"{r}: {pe.value(m.damage_noslr_b2[r])} vs {want}")
''')

add("s20-transfer-first-year", "C06",
    [("mimosa/components/financialtransfer/globaldamagepool.py", "sum(m.financial_transfer[t, r] for r in m.regions) == 0.0\n                    if t > 0", "sum(m.financial_transfer[t, r] for r in m.regions) == 0.0\n                    if 0 < t < m.tf")],
    "the last period", "Transfers need not add up to zero in the last period.",
    H + '''
m = model({"model.financialtransfer module": "globaldamagepool"})
T = m.t.last()
for t in (1, T):
    c = [c for c in m.component_data_objects(pe.Constraint, active=True)
         if c.equality and {id(m.financial_transfer[t, r]) for r in m.regions} == {id(v) for v in __import__("pyomo.core.expr.visitor", fromlist=["x"]).identify_variables(c.body)}]
    expect(len(c) >= 1, f"transfers balance in period {t}")
''')

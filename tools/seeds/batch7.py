import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from seed import add
H = "from demo_lib import *\n"

add("s33-low-quantile-slr", "C17",
    [("mimosa/components/damages/coacch.py", "        doc=lambda params: slr_param_name(\n            params, f'a (q={params[\"economics\"][\"damages\"][\"quantile\"]})'\n        ),",
      "        doc=lambda params: slr_param_name(\n            params,\n            f'a (q={max(params[\"economics\"][\"damages\"][\"quantile\"], 0.5)})',\n        ),")],
    "a damage quantile below the median", "Sea-level rise damages never go below the median whatever quantile is asked for.",
    H + '''
lo, mid = model({"economics.damages.quantile": 0.05}), model()
a = {r: pe.value(lo.damage_slr_a[r]) for r in lo.regions}
b = {r: pe.value(mid.damage_slr_a[r]) for r in mid.regions}
expect(any(not close(a[r], b[r]) for r in a), f"sea-level rise damages at the 5% quantile are not those at the median: {a} {b}")
''')

add("s34-pathway-file-by-name", "C21",
    [("mimosa/concrete_model/simulation_mode/set_constraints.py", "    if filepath not in data_cache:\n        data_cache[filepath] = read_csv(filepath)\n    imported_data = data_cache[filepath]",
      "    cache_key = filepath.replace(\"\\\\\", \"/\").split(\"/\")[-1]\n    if cache_key not in data_cache:\n        data_cache[cache_key] = read_csv(filepath)\n    imported_data = data_cache[cache_key]")],
    "two pathway files of the same name in different folders", "The second file is never read; its pathway is taken from the first.",
    H + '''
import os, tempfile, shutil
d = tempfile.mkdtemp()
try:
    for k, v in (("a", 0.1), ("b", 0.3)):
        os.makedirs(os.path.join(d, k))
        with open(os.path.join(d, k, "run.csv"), "w") as fh:
            fh.write("Variable,Region,Unit," + ",".join(str(y) for y in range(2020, 2055, 5)) + "\\n")
            for name, regions in (("relative_abatement", ("CAN", "USA", "INDIA")), ("temperature", ("Global",))):
                for r in regions:
                    fh.write(f"{name},{r},x," + ",".join(str(v) for _ in range(2020, 2055, 5)) + "\\n")
    m = model({"simulation.simulationmode": True, "simulation.constraint_variables": {"relative_abatement": os.path.join(d, "a", "run.csv"), "temperature": os.path.join(d, "b", "run.csv")}})
finally:
    shutil.rmtree(d)
from pyomo.core.expr.visitor import identify_variables
at = {}
for x in (0.1, 0.3):
    m.temperature[3].set_value(x, skip_validation=True)
    at[x] = 0
    for c in m.component_data_objects(pe.Constraint, active=True):
        if [v.name for v in identify_variables(c.body)] == ["temperature[3]"]:
            b = pe.value(c.body)
            if (c.has_lb() and b < pe.value(c.lower) - 1e-9) or (c.has_ub() and b > pe.value(c.upper) + 1e-9):
                at[x] += 1
expect(at[0.3] == 0 and at[0.1] > 0, f"the temperature follows the second file: violated at 0.3: {at[0.3]}, at 0.1: {at[0.1]}")
''')

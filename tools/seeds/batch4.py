import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from seed import add
H = "from demo_lib import *\n"

add("s21-regional-file-cache", "C25",
    [("mimosa/common/regional_params/regional_param_container.py", "        data_raw = pd.read_csv(full_filename)\n\n        if regiontype_input == regiontype_output:\n            self.data = data_raw.set_index(\"region\")\n        else:",
      "        data_raw = pd.read_csv(full_filename)\n\n        if full_filename in _MAPPED:\n            self.data = _MAPPED[full_filename]\n        elif regiontype_input == regiontype_output:\n            self.data = data_raw.set_index(\"region\")\n        else:"),
     ("mimosa/common/regional_params/regional_param_container.py", "            self.data = region_mapper.map_regions(\n                data_raw, regiontype_input, regiontype_output\n            ).set_index(\"region\")",
      "            self.data = region_mapper.map_regions(\n                data_raw, regiontype_input, regiontype_output\n            ).set_index(\"region\")\n            _MAPPED[full_filename] = self.data"),
     ("mimosa/common/regional_params/regional_param_container.py", "import pandas as pd\n", "import pandas as pd\n\n_MAPPED = {}  # region mapping is slow\n")],
    "two models in one session whose mapping tables differ", "A mapped regional table is kept for the session: a later model with another mapping table gets the values of the first.",
    H + '''
import tempfile, os, shutil
import pandas as pd
import mimosa
root = os.path.dirname(mimosa.__file__)
p = params()
info = next(x for x in p["regionsmappings"])
table = pd.read_csv(os.path.join(root, info["conversiontable"]))
d = tempfile.mkdtemp()
try:
    a, b = info["regionstype1"], info["regionstype2"]
    from mimosa.common.regional_params.region_mappers import RegionMapper
    from mimosa.common.regional_params.regional_param_container import RegionalParamContainer
    files = [f["filename"] for f in p["regional_parameter_files"].values() if f["regionstype"] in (a, b)]
    f = next(x for x in p["regional_parameter_files"].values() if x["regionstype"] in (a, b))
    src, dst = f["regionstype"], (b if f["regionstype"] == a else a)
    col = [c for c in pd.read_csv(os.path.join(root, f["filename"])).columns if c != "region"]
    num = [c for c in col if pd.api.types.is_numeric_dtype(pd.read_csv(os.path.join(root, f["filename"]))[c])][0]

    def values(conversiontable):
        m = RegionMapper(a, b, conversiontable)
        c = RegionalParamContainer(f["filename"], src, dst, {(a, b): m, (b, a): m})
        return c.data[num].to_dict()
    one = values(info["conversiontable"])
    # a table that sends every source region to the target of the first row
    other = table.copy()
    for x in (dst,):
        if x in other.columns:
            other[x] = other[x].iloc[0]
    path = os.path.join(d, "table.csv")
    other.to_csv(path, index=False)
    two = values(path)
    expect(set(two) != set(one) or any(not close(two[k], one[k]) for k in two), "another mapping table gives other values")
finally:
    shutil.rmtree(d)
''')

add("s22-exported-half-years", "C26",
    [("mimosa/concrete_model/simulation_mode/utils.py", "years = row.index.astype(float).to_numpy()", "years = row.index.astype(float).to_numpy().round()")],
    "a pathway exported by a run whose time step is not a whole number of years", "The years heading the columns of an imported pathway are rounded, so half-year pathways are imposed at the wrong years.",
    H + '''
from mimosa.concrete_model.simulation_mode.utils import InterpolatingData
import pandas as pd
data = pd.DataFrame([[1.0, 5.0, 3.0, 8.0, 2.0]], index=["CAN"], columns=["2020", "2022.5", "2025", "2027.5", "2030"])
d = InterpolatingData(data)
for y in data.columns:
    expect(abs(d.get("CAN", float(y)) - data.loc["CAN", y]) < 1e-6, f"value in {y} is {d.get('CAN', float(y))}")
''')

add("s23-exact-soft-equality", "C27",
    [("mimosa/common/pyomo_utils.py", "        if self.absolute_epsilon is not None:", "        if self.absolute_epsilon:")],
    "a soft equality with an absolute tolerance of exactly zero", "An absolute tolerance of zero is taken as not given and the relative one of half a percent is used.",
    H + '''
from mimosa.common.pyomo_utils import GlobalSoftEqualityConstraint
c = GlobalSoftEqualityConstraint(lambda m, t: m.x[t], lambda m, t: m.y[t], "zero", absolute_epsilon=0)
m = pe.ConcreteModel()
m.t = pe.Set(initialize=[0, 1])
m.x, m.y = pe.Var(m.t), pe.Var(m.t)
for k, con in enumerate(c.to_pyomo_constraint(m)):
    m.add_component(f"c{k}", con)
m.y.set_values({0: 100.0, 1: 100.0})
for x, want in ((100.0, True), (100.3, False), (99.7, False)):
    m.x.set_values({0: x, 1: x})
    ok = all((k.upper is None or pe.value(k.body) <= pe.value(k.upper) + 1e-9) and (k.lower is None or pe.value(k.body) >= pe.value(k.lower) - 1e-9) for k in m.component_data_objects(pe.Constraint))
    expect(ok == want, f"{x} against 100 is {'allowed' if ok else 'excluded'}")
''')

add("s24-reference-zero-bound", "C28",
    [("mimosa/common/config/utils/parsers.py", "{indent}- Min: {self.min}\\n\\n{indent}- Max: {self.max}\\n\\n", "{indent}- Min: {self.min or -np.inf}\\n\\n{indent}- Max: {self.max or np.inf}\\n\\n")],
    "a setting with a bound of exactly zero", "The reference states settings that must not be negative as unbounded.",
    H + '''
from mimosa.common.config.parseconfig import check_params
from mimosa.common.config.utils.parsers import NumParser
with contextlib.redirect_stdout(io.StringIO()):
    _, tree = check_params({}, return_parser_tree=True)
n = 0
def walk(d):
    global n
    for v in d.values():
        if isinstance(v, dict):
            walk(v)
        elif isinstance(v, NumParser):
            n += 1
            text = v.to_markdown("")
            lo = float(text.split("Min:")[1].split()[0])
            hi = float(text.split("Max:")[1].split()[0])
            expect(lo == v.min and hi == v.max, f"{v.descr}: stated {lo} to {hi}, enforced {v.min} to {v.max}")
walk(tree)
expect(n > 10, "settings found")
''')

add("s25-mac-area-scenario", "C04",
    [("mimosa/components/mitigation.py", "                lambda m, t, r: m.area_under_MAC[t, r]\n                == AC(m.relative_abatement[t, r], m, t, r) * m.baseline[t, r],",
      "                lambda m, t, r: m.area_under_MAC[t, r]\n                == AC(m.relative_abatement[t, r], m, t, r) * m.baseline_emissions[t, r],")],
    "the baseline following the carbon intensity and a period in which it differs from the scenario", "The area under the abatement cost curve uses the scenario emissions instead of the baseline the abatement is relative to.",
    H + '''
m = model({"emissions.baseline carbon intensity": True})
r, t = "USA", m.t.at(3)
m.relative_abatement[t, r].set_value(0.4)
m.learning_factor[t].set_value(1.0)
m.baseline[t, r].set_value(7.0)
con = find(m, m.area_under_MAC[t, r], m.relative_abatement[t, r])
a = head(con, m.area_under_MAC[t, r])
g, b, s = pe.value(m.MAC_gamma), pe.value(m.MAC_beta), pe.value(m.MAC_scaling_factor[r])
expect(close(a, s * g * 0.4 ** (b + 1) / (b + 1) * 7.0, 1e-6), f"area {a}")
''')

add("s26-horizon-index", "C24",
    [("mimosa/concrete_model/instantiate_params.py", "            \"year2100\": V(year2100),", "            \"year2100\": V(range(num_years)[year2100] if dt != int(dt) else year2100),")],
    "a horizon ending before 2100 with a time step that is not a whole number", "Such a model can no longer be built.",
    H + '''
try:
    m = model(start=2020, end=2050, dt=2.5)
    n = len(list(m.t))
except Exception as exc:
    expect(False, f"not built: {exc!r}")
expect(n == 13, f"{n} periods")
''')

add("s27-depreciation-step", "C08",
    [("mimosa/components/cobbdouglas.py", "                            m.capital_stock[t, r], m.dk, m.investments[t, r], m.dt\n", "                            m.capital_stock[t if value(m.dt) <= 5 else t - 1, r], m.dk, m.investments[t, r], m.dt\n")],
    "a time step above five years", "With long steps the depreciation is taken from the previous period's capital instead of the documented one.",
    H + '''
m = model(start=2020, end=2060, dt=10)
r, t = "CAN", m.t.at(3)
m.capital_stock[t, r].set_value(5.0)
m.capital_stock[t - 1, r].set_value(4.0)
m.investments[t, r].set_value(0.7)
con = find(m, m.capital_stock[t, r], m.capital_stock[t - 1, r])
i = head(con, m.investments[t, r])
dk, dt, k = pe.value(m.dk), pe.value(m.dt), 5.0
want = (5.0 - 4.0) / dt - ((1 - dk) ** dt - 1) / dt * k
expect(close(i, want, 1e-6), f"investments {i} instead of {want}")
''')
